// C02 Keyed lists: order, identity, lifecycle.
import { arrangements } from '../lib/explore.mjs';
import { ser } from '../lib/scene.mjs';

// Item kinds.  e: one element; m: two root nodes; n: nothing; c: stateful
// component (element); z: stateful component that shows nothing until toggled;
// C, Z, G: the same, skipped by re-renders; f: nested list; g: component returning a nested list; h: a hole between two
// root nodes; s: nothing but holes.
const KINDS = 'emnczfghsCZG';

function model(kind, key, on) {
  const id = `id=${JSON.stringify(String(key))}`;
  switch (kind.toLowerCase()) {
    case 'e':
      return `<li ${id}></>`;
    case 'm':
      return `<p ${id}></><q></>`;
    case 'n':
      return '';
    case 'c':
      return on ? `<b ${id}></><i></>` : `<a ${id}></>`;
    case 'z':
      return on ? `<b ${id}></><i></>` : '';
    case 'h':
      return `<p ${id}></><q></><q></><u></>`;
    case 's':
      return `<li ${id}></><q></>`;
    case 'f':
      return `<li ${id}></><q></>`;
    case 'g':
      return on ? `<q></><li ${id}></>` : `<li ${id}></>`;
  }
}

const CTX = {
  root: { wrap: (_B, list) => list, model: (s) => s },
  hole: { wrap: (V, list) => V.ul(list), model: (s) => `<ul>${s}</>` },
  mid: { wrap: (V, list) => [V.hr(), list, V.comp(null), V.hr()], model: (s) => `<hr></>${s}<hr></>` },
  holeMid: { wrap: (V, list) => V.ul([V.hr(), V.comp(list), V.hr()]), model: (s) => `<ul><hr></>${s}<hr></></>` },
  adjacent: { wrap: (V, list) => V.ul([list, [V.hr()], list.map((x) => V.rekey(x, '~'))]), model: null },
};

const ODD_KEYS = [NaN, 0, -0, undefined, null, '0', ''];
const keyName = (k) => (Object.is(k, -0) ? '-0' : typeof k === 'string' ? `s${k}` : String(k));

function* allArr(n) {
  yield* arrangements(Array.from({ length: n }, (_, i) => i + 1));
}

function* kindVectors(kinds, n) {
  if (n === 0) return yield '';
  for (const rest of kindVectors(kinds, n - 1)) for (const k of kinds) yield rest + k;
}

function* uniform(ctx) {
  // one kind per list, every ordered pair of arrangements
  const A4 = [...allArr(4)];
  for (const kind of KINDS) for (const c of ctx.thorough ? ['root', 'hole', 'mid', 'holeMid'] : 'mhs'.includes(kind) ? ['mid', 'hole'] : ['mid']) for (const a of A4) for (const b of A4) yield [c, [[a, kind.repeat(4)], [b, kind.repeat(4)]]];
  const A5 = [...arrangements([1, 2, 3, 4, 5])];
  for (const kind of ctx.thorough ? 'emczZ' : 'eZ') for (const a of A5) if (a.every((x, i) => x === i + 1)) for (const b of A5) yield ['hole', [[a, kind.repeat(5)], [b, kind.repeat(5)]]];
  if (ctx.thorough) for (const a of A5) for (const b of A5) yield ['hole', [[a, 'eczem'], [b, 'eczem']]];
  // permutations of six keys from the identity
  const A6 = [...arrangements([1, 2, 3, 4, 5, 6])].filter((x) => x.length === 6 || (ctx.thorough && x.length >= 4));
  for (const b of A6) yield ['hole', [[[1, 2, 3, 4, 5, 6], 'eeecze'], [b, 'eeecze']]];
  // longer lists: seven or eight keys, of which the first has six to eight
  const L = ctx.thorough ? 8 : 7;
  const kinds8 = 'zecmeCZe';
  for (const b of arrangements([1, 2, 3, 4, 5, 6, 7, 8].slice(0, L), L)) if (b.length >= L - 2) yield ['hole', [[[1, 2, 3, 4, 5, 6, 7, 8].slice(0, b.length === L ? L : L - 1), kinds8], [b, kinds8]]];
}

function* mixed(ctx) {
  // per-key kinds that change between renders
  const A3 = [...allArr(3)];
  const kinds = ctx.thorough ? 'encZ' : 'enZ';
  const K = [...kindVectors(kinds, 3)];
  for (const a of A3) for (const b of A3) if (b.length >= 2 && a.length >= 2) for (const p of K) for (const q of K) yield ['mid', [[a, p], [b, q]]];
  // every kind, one key changes kind
  for (const c of ['root', 'holeMid']) for (const a of A3) for (const b of A3) for (const x of KINDS) for (const y of KINDS) yield [c, [[a, x + 'ez'], [b, y + 'ez']]];
}

function* triples(ctx) {
  const A3 = [...allArr(3)];
  for (const kinds of ctx.thorough ? ['eee', 'ccc', 'zcz', 'mnf', 'gzg', 'fzc', 'hsz', 'ZcC', 'GeZ', 'ZZZ', 'Znz'] : ['zcm', 'gfz', 'hsz', 'ZGe']) for (const a of A3) for (const b of A3) for (const d of A3) yield ['mid', [[a, kinds], [b, kinds], [d, kinds]]];
}

function* duplicates(ctx) {
  const words = [[]];
  const grow = (n, keys) => {
    let out = [[]];
    const all = [[]];
    for (let i = 0; i < n; i++) {
      out = out.flatMap((w) => keys.map((k) => [...w, k]));
      all.push(...out);
    }
    return all;
  };
  const W = grow(ctx.thorough ? 5 : 4, [1, 2, 'u']);
  for (const a of W) for (const b of W) yield [a, b];
  if (!words) yield null;
}

function* oddKeys(ctx) {
  const idx = ODD_KEYS.map((_, i) => i);
  // 0 and -0 are not distinct keys for every purpose: never both in one list
  const A = [...arrangements(idx, ctx.thorough ? 3 : 2)].filter((w) => !(w.includes(1) && w.includes(2)));
  for (const a of A) for (const b of A) yield [a, b];
}

// Long lists: every edit of one or two kinds of a list of n keys.
function* edits(n) {
  const id = Array.from({ length: n }, (_, i) => i + 1);
  const cut = (w, i, j) => [...w.slice(0, i), ...w.slice(j)];
  const put = (w, i, x) => [...w.slice(0, i), ...x, ...w.slice(i)];
  yield [id, id];
  yield [id, id.toReversed()];
  yield [id, id.toSorted((a, b) => (a % 2) - (b % 2) || a - b)];
  yield [id, id.toSorted()]; // lexicographic order
  yield [id.toSorted(), id];
  for (let i = 0; i < n; i++) for (let j = i + 1; j <= n; j++) {
    const block = id.slice(i, j);
    const rest = cut(id, i, j);
    yield [id, rest];
    yield [rest, id];
    yield [id, put(rest, i, block.toReversed())];
    yield [rest, put(id, i, []).toReversed()];
    if (j < n) yield [id, id.map((k, x) => (x === i ? id[j] : x === j ? id[i] : k))];
    // the block replaced with new keys
    yield [id, put(rest, i, block.map((k) => k + n))];
    // moved to every other place
    for (let at = 0; at <= rest.length; at++) if (at !== i && (j - i <= 2 || at === 0 || at === rest.length || j - i >= n - 2)) yield [id, put(rest, at, block)];
  }
}

function* long(ctx) {
  for (const [n, kinds, c] of ctx.thorough ? [[12, 'e', 'hole'], [12, 'zec', 'mid'], [12, 'nzg', 'root'], [18, 'eZm', 'hole'], [18, 'c', 'mid']] : [[11, 'zec', 'mid'], [12, 'e', 'hole']]) for (const [a, b] of edits(n)) yield [c, [[a, kinds.repeat(2 * n)], [b, kinds.repeat(2 * n)]]];
  // much longer ones: a sample of every kind of edit is exhaustive up to the place of the edit
  for (const n of ctx.thorough ? [40, 100, 300] : [40, 100]) {
    const id = Array.from({ length: n }, (_, i) => i + 1);
    const K = 'ezc'.repeat(n);
    for (let r = 1; r < n; r += n > 100 ? 7 : n > 40 ? 5 : 1) {
      yield ['mid', [[id, K], [[...id.slice(r), ...id.slice(0, r)], K]]];
      yield ['mid', [[id, K], [id.filter((k) => k % (r + 1) !== 0), K]]];
      yield ['mid', [[id.filter((k) => k % (r + 1) !== 0), K], [id.toReversed(), K]]];
      // a permutation without fixed neighbours: multiples of a unit modulo a prime
      const p = 101;
      yield ['hole', [[id, K], [id.toSorted((x, y) => ((x * (r + 1)) % p) - ((y * (r + 1)) % p) || x - y), K]]];
    }
  }
}

export default {
  id: 'C02',
  rule: 'a case is a history of 2-3 keyed lists (arrangements of up to 7 keys or edits of longer ones, each key with an item kind) in a context, followed by a state toggle in every component item; the DOM is compared with a hand-written model, DOM nodes and component instances are compared by identity, mounts and unmounts are counted; distinct outcomes are distinct DOMs',
  assumptions: ['jsdom implements the DOM tree operations used', 'all arrangements of at most 7 keys (thorough: 8), edits of one or two kinds of lists of up to 12 (18) keys, some of 100 (300); histories of at most 3 lists'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot, html, createComponent, createFragment, createBind } = B;
    const adapter = new DOMAdapter(document);
    let reg; // per-case registry
    let serial = 0;

    const el = (k) => html`<li id=${k}></li>`;
    const multi = (k) => html`<p id=${k}></p><q></q>`;
    const inner = (k) => html`<p id=${k}></p><${createFragment([q(), q()])}><u></u>`;
    const holes = (k) => html`<${el(k)}><${q()}>`;
    const alt = (k) => html`<b id=${k}></b><i></i>`;
    const anchor = (k) => html`<a id=${k}></a>`;
    const q = () => html`<q></q>`;
    const Item = createComponent(function Item({ kind, k }) {
      const [on, setOn] = this.useState(false);
      const me = this.useMemo(() => ++serial, []);
      this.useEffect(() => {
        reg.log.push(`+${k}`);
        reg.live.set(`${k}`, { me, setOn });
        return () => {
          reg.log.push(`-${k}`);
          if (reg.live.get(`${k}`)?.me === me) reg.live.delete(`${k}`);
        };
      }, []);
      if (kind === 'g') return on ? [q(), el(k)] : [el(k)];
      if (kind === 'z') return on ? alt(k) : null;
      return on ? alt(k) : anchor(k);
    });
    const Wrap = createComponent(function Wrap({ child }) {
      return child;
    });
    const V = {
      ul: (c) => html`<ul><${c}></ul>`,
      hr: () => html`<hr>`,
      comp: (c) => Wrap({ child: c }),
    };
    const item = (kind, key) => {
      const name = keyName(key);
      let v;
      switch (kind) {
        case 'e':
          v = el(name);
          break;
        case 'm':
          v = multi(name);
          break;
        case 'h':
          v = inner(name);
          break;
        case 's':
          v = holes(name);
          break;
        case 'n':
          v = createBind(null);
          break;
        case 'f':
          v = createFragment([el(name), q()]);
          break;
        default:
          v = kind > 'Z' ? Item({ kind, k: name }) : (reg.cache[kind + name] ??= Item({ kind: kind.toLowerCase(), k: name }));
      }
      return v.withKey(key);
    };
    const sig = (kind) => ('czgCZG'.includes(kind) ? 'comp' : kind);

    function nodesByKey(container) {
      const map = new Map();
      for (const n of container.querySelectorAll('[id]')) map.set(n.getAttribute('id'), n);
      return map;
    }

    async function runCase([c, steps]) {
      host.reset();
      reg = { log: [], live: new Map(), cache: {} };
      const context = CTX[c];
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      let prev = null;
      const on = new Set();
      for (let si = 0; si < steps.length; si++) {
        const [keys, kinds] = steps[si];
        const kindOf = (k) => kinds[k - 1];
        reg.log.length = 0;
        const before = new Map([...reg.live].map(([k, v]) => [k, v.me]));
        const h = root.render(context.wrap(V, keys.map((k) => item(kindOf(k), k))), { flushSync: true });
        await drain();
        await h.finished;
        ctx.count('transitions');
        // items that went away or changed type lose their state
        const kept = new Set(prev === null ? [] : keys.filter((k) => prev.keys.includes(k) && sig(prev.kindOf(k)) === sig(kindOf(k))));
        for (const k of [...on]) if (!kept.has(k)) on.delete(k);
        const want = context.model(keys.map((k) => model(kindOf(k), k, on.has(k))).join(''));
        const got = ser(container, { noComments: true });
        if (got !== want) return `step ${si + 1}: order\n got ${got}\nwant ${want}`;
        ctx.outcome(got);
        const now = nodesByKey(container);
        if (prev !== null) {
          for (const k of kept) {
            const o = prev.nodes.get(String(k));
            if (o !== undefined && kindOf(k) === prev.kindOf(k) && now.get(String(k)) !== o) return `step ${si + 1}: DOM node of key ${k} was replaced`;
            if (before.has(String(k)) && reg.live.get(String(k))?.me !== before.get(String(k))) return `step ${si + 1}: component state of key ${k} was lost`;
          }
          const isComp = (kf, k) => sig(kf(k)) === 'comp';
          const wantLog = [...prev.keys.filter((k) => isComp(prev.kindOf, k) && !kept.has(k)).map((k) => `-${k}`), ...keys.filter((k) => isComp(kindOf, k) && !kept.has(k)).map((k) => `+${k}`)].sort();
          const gotLog = reg.log.slice().sort();
          if (wantLog.join() !== gotLog.join()) return `step ${si + 1}: lifecycle got ${gotLog} want ${wantLog}`;
        }
        // Toggle each component item in turn: its new content must appear in its own place.
        // On the last step in both directions; before, only the first component.
        const comps = keys.filter((k) => sig(kindOf(k)) === 'comp');
        for (const k of si === steps.length - 1 ? comps : comps.slice(0, 1)) {
          if (on.has(k)) on.delete(k);
          else on.add(k);
          reg.live.get(String(k)).setOn(on.has(k), { flushSync: true });
          await drain();
          ctx.count('transitions');
          const w = context.model(keys.map((k) => model(kindOf(k), k, on.has(k))).join(''));
          const g = ser(container, { noComments: true });
          if (g !== w) return `step ${si + 1}: after toggling ${k}\n got ${g}\nwant ${w}`;
        }
        prev = { keys, kindOf, nodes: nodesByKey(container) };
      }
      ctx.sample([c, steps, ser(container, { noComments: true })]);
    }

    async function runDup([a, b]) {
      host.reset();
      reg = { log: [], live: new Map(), cache: {} };
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      for (const w of [a, b, a]) {
        const list = w.map((k, i) => (k === 'u' ? el(`${k}${i}`) : el(`${k}${i}`).withKey(k)));
        const h = root.render([V.hr(), list, V.hr()], { flushSync: true });
        await drain();
        await h.finished;
        ctx.count('transitions');
        const want = `<hr></>${w.map((k, i) => `<li id="${k}${i}"></>`).join('')}<hr></>`;
        const got = ser(container, { noComments: true });
        if (got !== want) return `got ${got}\nwant ${want}`;
      }
    }

    async function runOdd([a, b]) {
      host.reset();
      reg = { log: [], live: new Map(), cache: {} };
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      let prev;
      for (const w of [a, b, a]) {
        reg.log.length = 0;
        const keys = w.map((i) => ODD_KEYS[i]);
        const before = new Map([...reg.live].map(([k, v]) => [k, v.me]));
        const h = root.render(V.ul(keys.map((k) => item('c', k))), { flushSync: true });
        await drain();
        await h.finished;
        ctx.count('transitions');
        const want = `<ul>${keys.map((k) => model('c', keyName(k), false)).join('')}</>`;
        const got = ser(container, { noComments: true });
        if (got !== want) return `got ${got}\nwant ${want}`;
        const now = nodesByKey(container);
        if (prev) {
          for (const k of keys) {
            const n = keyName(k);
            if (!before.has(n)) continue;
            if (reg.live.get(n)?.me !== before.get(n)) return `state of key ${n} was lost`;
            if (now.get(n) !== prev.get(n)) return `DOM node of key ${n} was replaced`;
          }
          for (const e of reg.log) {
            const n = e.slice(1);
            if (before.has(n) && keys.some((k) => keyName(k) === n)) return `kept key ${n} was ${e[0] === '+' ? 'mounted' : 'unmounted'} again`;
          }
        }
        prev = now;
      }
    }

    await ctx.space('uniform', uniform(ctx), runCase);
    await ctx.space('mixed', mixed(ctx), runCase);
    await ctx.space('triples', triples(ctx), runCase);
    await ctx.space('long', long(ctx), runCase);
    await ctx.space('duplicates', duplicates(ctx), runDup);
    await ctx.space('oddKeys', oddKeys(ctx), runOdd);
    ctx.count('states', ctx.distinctSet.size);
  },
};
