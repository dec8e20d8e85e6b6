// C01 The DOM is a function of the last rendered value.
import { words } from '../lib/explore.mjs';
import { makeEnv, makeVocabulary, observe } from '../lib/scene.mjs';

const LEAVES = [null, 'v', ['e'], ['a'], ['p'], ['f']];
const SMALL = [
  null, ['a'], ['p'], ['e'], ['f'], ['f', ['a']], ['f', ['a'], ['p']], ['f', ['p'], ['a']], ['f', null, ['a']],
  ['c', null], ['c', ['a']], ['c', ['f']], ['c', ['f', ['a'], ['b']]], ['d', ['a']], ['h', null], ['h', ['a']], ['x', ['b']], ['y', ['a']], ['w', ['a']], ['w', ['f', ['a'], ['b']]],
  ['t', 'txt'], ['o', 0, ['a']], ['o', 0, ['f', ['a'], ['b']]], ['o', 1, ['a']], ['f', ['k', 1, ['a']], ['k', 2, ['b']]], ['f', ['k', 2, ['b']], ['k', 1, ['a']]], ['f', ['f'], ['a']], ['f', ['c', null], ['a']], ['f', ['c', ['f', ['a']]], ['b']], ['s'],
];

export function medium() {
  const out = [];
  const L = [null, ['a'], ['p'], ['f']];
  for (const l of [...LEAVES, ['b'], ['s']]) out.push(l);
  const one = [null, ['a'], ['p'], ['f'], ['e'], ['f', ['b'], ['a']], ['c', ['a']], ['c', null], ['w', ['b']], ['h', ['b']], ['f', null, ['p']]];
  for (const op of ['c', 'h', 'x', 'y', 'w']) for (const c of one) out.push([op, c]);
  for (const c of ['t1', 2, null, false]) out.push(['t', c], ['w', ['t', c]]);
  for (const c of L) for (const d of L) {
    out.push(['f', c, d], ['hh', c, d], ['z', c, d], ['n', c, d]);
  }
  for (const c of one) {
    out.push(['o', 0, c], ['f', ['c', c], ['b']], ['f', ['f', c], ['b']], ['l', c, ['b']], ['f', ['a'], ['h', c]]);
  }
  for (const c of [['a'], ['f', ['a'], ['b']]]) out.push(['o', 1, c], ['f', ['o', 0, c], ['o', 1, ['b']]], ['f', ['o', 0, c], ['b']], ['w', ['o', 0, c]]);
  return dedupe(out);
}

function dedupe(xs) {
  const seen = new Map();
  for (const x of xs) seen.set(JSON.stringify(x), x);
  return [...seen.values()];
}

// Where the varying tree sits.  null marks the varying position.
export const CONTEXTS = {
  root: (x) => x,
  sib: (x) => ['f', ['b'], x, ['p']],
  hole: (x) => ['w', x],
  mid: (x) => ['z', x, ['b']],
  comp: (x) => ['f', ['c', x], ['b']],
  nest: (x) => ['w', ['f', ['f', x], ['c', ['a']]]],
  portal: (x) => ['o', 0, ['f', x, ['b']]],
};

function* histories(ctx) {
  const M = medium();
  const names = Object.keys(CONTEXTS);
  // all ordered pairs of the medium universe, in every context
  for (const c of ctx.thorough ? names : ['root', 'sib', 'hole']) for (const a of M) for (const b of M) yield [c, a, b];
  // all ordered triples of the small universe
  for (const c of ctx.thorough ? names : ['sib', 'comp']) for (const a of SMALL) for (const b of SMALL) for (const d of SMALL) yield [c, a, b, d];
}

// Independently varying siblings: positions of a fragment / template that all change.
function* siblings(ctx) {
  const V = [null, ['a'], ['p'], ['f'], ['f', ['a'], ['b']], ['c', null], ['c', ['f', ['b']]]];
  const pairs = [];
  for (const a of V) for (const b of V) pairs.push([a, b]);
  for (const shape of ctx.thorough ? ['f', 'hh', 'z', 'l', 'n'] : ['f', 'z', 'l']) for (const p of pairs) for (const q of pairs) yield [shape, p, q];
  if (ctx.thorough) {
    const W = [null, ['a'], ['f', ['b']], ['c', null], ['f']];
    const tri = [];
    for (const a of W) for (const b of W) for (const c of W) tri.push([a, b, c]);
    for (const p of tri) for (const q of tri) yield ['f', p, q];
  }
}

export default {
  id: 'C01',
  rule: 'a case is a history of 2-3 trees (plus an unmount) over the bounded tree grammar, placed in one of the listed contexts; every tree is rendered on one root and the observable DOM is compared after each commit with a fresh render of that tree on a new root; distinct outcomes are distinct DOMs',
  assumptions: ['jsdom implements the DOM tree operations used', 'comment data is not observable', 'tree grammar bound: depth<=4, width<=3'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot } = B;
    const adapter = new DOMAdapter(document);
    const V = makeVocabulary(B);
    const freshCache = new Map();

    async function fresh(spec) {
      const key = JSON.stringify(spec);
      let r = freshCache.get(key);
      if (r === undefined) {
        host.reset();
        const env = makeEnv();
        const root = new DOMRoot(env.container, new Runtime(adapter));
        const h = root.render(V.build(spec, env), { flushSync: true });
        await drain();
        await h.finished;
        r = observe(env);
        if (freshCache.size < 20000) freshCache.set(key, r);
      }
      return r;
    }

    async function runHistory(specs) {
      host.reset();
      const env = makeEnv();
      const root = new DOMRoot(env.container, new Runtime(adapter));
      for (let i = 0; i < specs.length; i++) {
        const h = root.render(V.build(specs[i], env), { flushSync: true });
        await drain();
        await h.finished;
        ctx.count('transitions');
        const got = observe(env);
        const want = await fresh(specs[i]);
        if (got !== want) return `after render #${i + 1} of ${JSON.stringify(specs)}\n got ${got}\nwant ${want}`;
        ctx.outcome(got);
      }
      const h = root.unmount({ flushSync: true });
      await drain();
      await h.finished;
      const left = observe(env, { noComments: true });
      if (left.replace(/\|/g, '') !== '') return `after unmount of ${JSON.stringify(specs)} remains ${left}`;
    }

    await ctx.space('histories', histories(ctx), ([c, ...specs]) => runHistory(specs.map((s) => CONTEXTS[c](s))));
    await ctx.space('siblings', siblings(ctx), ([shape, p, q]) => runHistory([[shape, ...p], [shape, ...q], [shape, ...p]]));
    // Long rows of components of which few show anything, changing one at a time.
    const CELLS = { none: () => null, list: () => [], item: (k) => B.html`<i>${k}</i>`, pair: (k) => [B.html`<i>${k}</i>`, B.html`<b>${k}</b>`] };
    const Cell = B.createComponent(function Cell({ k, start, cells }) {
      const [kind, set] = this.useState(start);
      cells[k] = { kind, set };
      return CELLS[kind](k);
    });
    await ctx.space('sparse', (function* () {
      for (const place of ['root', 'hole', 'nested']) for (const n of ctx.thorough ? [5, 9, 10, 17, 18, 33, 34, 65, 66, 130] : [9, 10, 17, 18, 34, 66]) {
        const at = [...new Set([0, 1, n >> 1, n - 2, n - 1])];
        for (const empty of ['none', 'list']) for (const full of ['item', 'pair']) for (const shown of [[], [0], [n - 1], [n >> 1], [0, n - 1]]) for (const a of at) for (const b of at) yield [place, n, empty, full, shown, [a, b, a]];
      }
    })(), async ([place, n, empty, full, shown, changes]) => {
      host.reset();
      const env = makeEnv();
      const root = new DOMRoot(env.container, new Runtime(adapter));
      const cells = [];
      const row = Array.from({ length: n }, (_, k) => Cell({ k, start: shown.includes(k) ? full : empty, cells }).withKey(k));
      const tree = { root: () => row, hole: () => B.html`<p><${row}></p>`, nested: () => [B.html`<u>`, [[], row, []], B.html`<s>`] }[place]();
      const want = () => {
        const text = cells.map(({ kind }, k) => ({ item: `<i>${k}</i>`, pair: `<i>${k}</i><b>${k}</b>` })[kind] ?? '').join('');
        return { root: text, hole: `<p>${text}</p>`, nested: `<u></u>${text}<s></s>` }[place];
      };
      const compare = (when) => {
        const got = env.container.innerHTML.replace(/<!--.*?-->/g, '');
        ctx.count('transitions');
        return got === want() ? undefined : `${when} the row shows ${got}, expected ${want()}`;
      };
      const done = async (h) => {
        await drain();
        await h.finished;
      };
      await done(root.render(tree, { flushSync: true }));
      let problem = compare('at first');
      for (const k of changes) {
        await done(cells[k].set(cells[k].kind === full ? empty : full, { flushSync: true }));
        problem ??= compare(`after a change of ${k}`);
      }
      await done(root.unmount({ flushSync: true }));
      ctx.outcome(want().length + place);
      return problem;
    });
    // The same strings in different modes are different templates.
    const { createTemplate, createFragment, createPortal, createComponent, html } = B;
    const STRINGS = [['<a>x</a>'], ['<a t="', '">', ' <', '></a>'], ['x ', '']];
    const ns = (node) => (node.nodeType === 3 ? node.data : node.nodeType !== 1 ? '' : `<${node.namespaceURI.slice(-4)}:${node.localName}${[...node.attributes].map((a) => ` ${a.name}=${a.value}`)}>${[...node.childNodes].map(ns).join('')}</>`);
    const sets = [];
    const Show = createComponent(function Show({ first, make }) {
      const [m, set] = this.useState(first);
      sets.push(set);
      return make(m);
    });
    // A place renders one or two templates of the given modes.
    const PLACES = {
      root: (make, [m]) => make(m, 0),
      hole: (make, [m]) => html`<p>(<${make(m, 0)}>)</p>`,
      list: (make, [m, n]) => [html`<hr>`, make(m, 0), html`<br>`, make(n, 1)],
      keyed: (make, [m, n]) => [[m, 0], [n, 1]].sort().map(([q, i]) => make(q, i).withKey(i)),
      component: (make, [m]) => [Show({ first: m, make: () => make(m, 0) }), html`<br>`],
      portal: (make, [m], env) => [createPortal(make(m, 0), env), html`<br>`],
      state: null,
    };
    const MODES = ['html', 'svg', 'math', 'textarea'];
    async function modes([si, place, hist]) {
      const values = (i) => [[], [`t${i}`, `x${i}`, html`<u>${i}</u>`], [`v${i}`]][si];
      const usable = (m) => !(m === 'textarea' && si === 1);
      if (hist.some((ms) => !ms.every(usable))) return;
      const stage = () => {
        const container = document.createElement('div');
        const aside = document.createElement('aside');
        return { container, aside, root: new DOMRoot(container, new Runtime(new DOMAdapter(document))), see: () => [...container.childNodes, ...aside.childNodes].map(ns).join('') };
      };
      host.reset();
      sets.length = 0;
      const live = stage();
      const make = (strings) => (m, i) => createTemplate(m, strings, values(i));
      let problem;
      for (const [n, ms] of hist.entries()) {
        const own = make(STRINGS[si]);
        let h;
        if (place !== 'state') h = live.root.render(PLACES[place](own, ms, live.aside), { flushSync: true });
        else if (n === 0) h = live.root.render([Show({ first: ms[0], make: (m) => own(m, 0) }), html`<br>`], { flushSync: true });
        else h = sets.at(-1)(ms[0], { flushSync: true });
        h.finished.catch((e) => (problem = e));
        await drain();
        const other = stage();
        const fresh = make(STRINGS[si].slice());
        other.root.render(place === 'state' ? [fresh(ms[0], 0), html`<br>`] : PLACES[place]((m, i) => make(STRINGS[si].slice())(m, i), ms, other.aside), { flushSync: true }).finished.catch((e) => (problem = e));
        await drain();
        if (problem !== undefined) return `${problem.stack}\n${problem.cause?.stack}`;
        if (live.see() !== other.see()) return `after ${JSON.stringify(hist.slice(0, n + 1))} there is ${live.see()}, expected ${other.see()}`;
        ctx.count('transitions');
        ctx.outcome(`modes${live.see()}`);
      }
      live.root.unmount({ flushSync: true });
      await drain();
      if (live.see() !== '') return `after unmounting there remains ${live.see()}`;
    }
    await ctx.space('modes', (function* () {
      for (const place of Object.keys(PLACES)) for (const si of STRINGS.keys()) {
        const two = place === 'list' || place === 'keyed';
        const steps = MODES.flatMap((m) => (two ? MODES.map((n) => [m, n]) : [[m]]));
        for (let k = 1; k <= (two ? (ctx.thorough ? 3 : 2) : ctx.thorough ? 5 : 4); k++) for (const w of words(steps.length, k)) yield [si, place, w.map((i) => steps[i])];
      }
    })(), modes);
    ctx.count('states', ctx.distinctSet.size);
    ctx.sample([...freshCache.entries()].at(-1));
  },
};
