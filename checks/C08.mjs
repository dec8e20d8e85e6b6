// C08 Signals: reads, notifications, readers.
import { words } from '../lib/explore.mjs';
import { interleave, ser } from '../lib/concurrency.mjs';

export default {
  id: 'C08',
  rule: 'items are (a) operation sequences over a graph of writable and computed signals, compared with direct evaluation, (b) subscriber lists whose subscribers unsubscribe, subscribe and write while being notified, (c) programs of writes, mounts, unmounts and signal switches interleaved with every order of host callbacks; distinct outcomes are distinct observations',
  assumptions: ['subscribers and computations do not throw', 'computations are pure'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot, html, createComponent, createFragment, Atom, Accessor, Computed, LocalAtom, LocalComputed } = B;
    const T = ctx.thorough;

    // ---- (a) graphs
    // A graph: list of computed nodes, each a list of dependency indices; 0 and 1 are writable.
    const GRAPHS = {
      chain: [[0], [2], [3]],
      diamond: [[0], [0], [2, 3]],
      deep: [[0, 1], [0, 2], [2, 3]],
      twice: [[0, 0], [2, 1]],
      empty: [[], [2, 0]],
      map: ['map0', 'map2'],
    };
    const VALUES = [0, 1, NaN];
    // What computations return that is easily taken for nothing.
    const RESULTS = { null: null, undefined, false: false, zero: 0, NaN, empty: '' };
    function graph([name, kind, ops, result = 'text']) {
      const ext = { v: 0 };
      const w = [new Atom(0), kind === 'atom' ? new Atom(0) : new Accessor(() => ext.v, (v) => (ext.v = v))];
      const cur = [0, 0];
      const counts = [];
      const fn = (i) => (...xs) => {
        counts[i] = (counts[i] ?? 0) + 1;
        return result === 'text' ? `${i}(${xs})` : RESULTS[result];
      };
      const nodes = [...w];
      const deps = [[], []];
      for (const d of GRAPHS[name]) {
        const i = nodes.length;
        if (typeof d === 'string') {
          const j = Number(d.at(-1));
          nodes.push(nodes[j].map(fn(i)));
          deps.push([j]);
        } else {
          nodes.push(new Computed(fn(i), d.map((j) => nodes[j])));
          deps.push(d);
        }
      }
      const atoms = deps.map((_, i) => new Set());
      const fill = (i) => (i < 2 ? new Set([i]) : new Set(deps[i].flatMap((j) => [...fill(j)])));
      for (let i = 0; i < nodes.length; i++) atoms[i] = fill(i);
      const ref = (i) => (i < 2 ? cur[i] : result === 'text' ? `${i}(${deps[i].map(ref)})` : RESULTS[result]);
      const stale = nodes.map(() => true);
      const read = (i) => {
        const before = counts.slice();
        const v = nodes[i].value;
        if (!Object.is(v, ref(i))) return `node ${i} reads ${String(v)}, expected ${ref(i)}`;
        // which computations were necessary
        const need = new Set();
        const go = (j) => {
          if (j < 2 || !stale[j]) return;
          need.add(j);
          for (const k of deps[j]) go(k);
        };
        go(i);
        for (let j = 2; j < nodes.length; j++) {
          const n = (counts[j] ?? 0) - (before[j] ?? 0);
          if (n > (need.has(j) ? 1 : 0)) return `reading node ${i} computed node ${j} ${n} times, expected at most ${need.has(j) ? 1 : 0}`;
        }
        for (const j of need) stale[j] = false;
      };
      const subs = [];
      let writing = null;
      for (const [op, x, y] of ops) {
        if (op === 'w') {
          const changed = !Object.is(cur[x], VALUES[y]);
          const old = cur[x];
          cur[x] = VALUES[y];
          if (changed) for (let j = 2; j < nodes.length; j++) if (atoms[j].has(x)) stale[j] = true;
          for (const s of subs) s.events = [];
          writing = { x };
          w[x].value = VALUES[y];
          writing = null;
          for (const s of subs) {
            const expected = s.live && changed && atoms[s.node].has(x);
            const n = s.events.length;
            if (s.node < 2 ? n !== (expected ? 1 : 0) : (n > 0) !== expected) return `a ${s.live ? '' : 'former '}subscriber of node ${s.node} was called ${n} times for writing ${String(VALUES[y])} over ${String(old)} to signal ${x}`;
            for (const e of s.events) {
              if (e.type !== 'set' || e.source !== w[x] || !Object.is(e.oldValue, old) || !Object.is(e.newValue, cur[x]) || e.path.length !== 0) return `wrong event ${e.type} ${String(e.oldValue)} -> ${String(e.newValue)}`;
              if (!Object.is(e.seen, cur[x])) return `a subscriber of node ${s.node} was called before the signal read the new value`;
            }
          }
        } else if (op === 'r') {
          const m = read(x);
          if (m !== undefined) return m;
        } else if (op === 's') {
          const s = { node: x, live: true, events: [] };
          s.unsubscribe = nodes[x].subscribe((e) => s.events.push({ ...e, path: e.path, seen: w[writing.x].value }));
          subs.push(s);
        } else if (op === 'u') {
          const s = subs[x];
          if (s !== undefined) {
            s.unsubscribe();
            s.live = false;
          }
        }
      }
      for (let i = nodes.length - 1; i >= 0; i--) {
        const m = read(i);
        if (m !== undefined) return `finally ${m}`;
      }
      ctx.count('transitions', ops.length);
      ctx.outcome(name + counts + nodes.map((_, i) => ref(i)));
    }
    await ctx.space('graphs', (function* () {
      for (const name of Object.keys(GRAPHS)) {
        const n = 2 + GRAPHS[name].length;
        const writes = [['w', 0, 1], ['w', 0, 0], ['w', 0, 2], ['w', 1, 1], ['w', 1, 2]];
        const reads = Array.from({ length: n - 2 }, (_, i) => ['r', i + 2]);
        const subs = [['s', 0], ['s', 1], ['s', n - 1], ['u', 0], ['u', 1]];
        const all = [...writes, ...reads, ...subs];
        for (let k = 1; k <= (T ? 6 : 5); k++) for (const wd of words(writes.length + reads.length, k)) yield [name, 'accessor', wd.map((i) => all[i])];
        for (let k = 1; k <= (T ? 5 : 4); k++) for (const wd of words(all.length, k)) yield [name, 'atom', wd.map((i) => all[i])];
      }
    })(), (item) => graph(item));
    await ctx.space('results', (function* () {
      for (const name of Object.keys(GRAPHS)) for (const result of Object.keys(RESULTS)) {
        const n = 2 + GRAPHS[name].length;
        const all = [['w', 0, 1], ['w', 0, 0], ['w', 1, 1], ...Array.from({ length: n - 2 }, (_, i) => ['r', i + 2])];
        for (let k = 1; k <= (T ? 5 : 4); k++) for (const wd of words(all.length, k)) yield [name, 'atom', wd.map((i) => all[i]), result];
      }
    })(), (item) => graph(item));

    // ---- (b) notification
    // Each of the subscribers 0..2 has an action performed when it is called the first time.
    const ACTIONS = ['', 'u0', 'u1', 'u2', 'u01', 'u10', 'u12', 'u21', 'u02', 'u20', 'u012', 'n', 'u0n', 'u1n', 'w', 'u0w', 'u1w', 'u2w'];
    function notification([kind, actions, twice]) {
      const base = new Atom(0);
      const target = kind === 'atom' ? base : new Computed((x, y) => x + y, [base, new Atom(5)]);
      const subs = [];
      let calls = 0;
      let problem;
      const events = [];
      const done = new Set();
      const add = (action) => {
        const s = { id: subs.length, live: true, since: events.length, got: [], until: Infinity, action };
        s.unsubscribe = target.subscribe((e) => {
          if (++calls > 200) throw new Error('too many calls');
          if (!s.live) problem ??= `subscriber ${s.id} was called after it had been unsubscribed`;
          s.got.push(e.newValue);
          const a = s.action;
          s.action = '';
          for (const ch of a) {
            if (ch === 'n') add('');
            else if (ch === 'w') write();
            else if (ch !== 'u') {
              const t = subs[Number(ch)];
              if (t === undefined) continue;
              t.unsubscribe();
              t.live = false;
              if (t.until === Infinity) t.until = [...done];
            }
          }
        });
        subs.push(s);
        return s;
      };
      const write = () => {
        const e = events.length + 1;
        events.push(e);
        base.value = e;
        done.add(e);
      };
      for (const a of actions) add(a);
      write();
      if (twice) {
        for (const s of subs.slice(0, 3)) s.action = actions[2 - s.id] ?? '';
      }
      write();
      write();
      if (problem !== undefined) return problem;
      for (const s of subs) {
        if (new Set(s.got).size !== s.got.length) return `subscriber ${s.id} was notified twice of one write: ${s.got}`;
        for (const e of events) {
          // Subscribed before the write and not unsubscribed until it was done.
          if (e > s.since && (s.until === Infinity || s.until.includes(e)) && !s.got.includes(e)) {
            // a subscriber added while notifying may miss the ongoing write
            return `subscriber ${s.id} was not notified of write ${e}: ${s.got}`;
          }
        }
      }
      ctx.outcome(JSON.stringify(subs.map((s) => s.got)));
    }
    await ctx.space('notification', (function* () {
      const A = ACTIONS;
      for (const kind of ['atom', 'computed']) for (const twice of [false, true]) for (const a of A) for (const b of A) for (const c of A) yield [kind, [a, b, c], twice];
    })(), (item) => notification(item));

    // ---- (c) readers in a tree
    const adapter = new DOMAdapter(document);
    let cur;
    const Reader = createComponent(function Reader({ sig, effect }) {
      const v = this.use(sig);
      this.useEffect(() => effect?.(), []);
      cur.shown.push(v);
      return html`<p>${v}</p>`;
    });
    const Two = createComponent(function Two({ s1, s2 }) {
      return html`<p>${this.use(s1)}</p><p>${this.use(s2)}</p>`;
    });
    const Memo = createComponent(function Memo({ sig }) {
      return html`<p>${this.use(sig)}</p>`;
    }, { arePropsEqual: (a, b) => a.sig === b.sig });
    const Local = createComponent(function Local({ sig }) {
      const c = this.use(LocalComputed((v) => `${v}!`, [sig]));
      const own = this.use(LocalAtom(0));
      cur.own = own;
      return html`<p>${this.use(c)}</p><p>${this.use(own)}</p>`;
    });
    const tracked = (signal) => {
      const subscribe = signal.subscribe;
      signal.subscribe = function (s) {
        cur.subs++;
        const un = subscribe.call(this, s);
        let done = false;
        return () => {
          if (!done) cur.subs--;
          done = true;
          un();
        };
      };
      return signal;
    };
    // A view maps the signals to a value to render and the texts expected.
    const VIEWS = {
      none: () => null,
      a: ({ a }) => Reader({ sig: a }),
      b: ({ b }) => Reader({ sig: b }),
      c: ({ c }) => Reader({ sig: c }),
      hole: ({ a }) => html`<p>${a}</p>`,
      holeB: ({ b }) => html`<p>${b}</p>`,
      two: ({ a, b }) => Two({ s1: a, s2: b }),
      two2: ({ b, a }) => Two({ s1: b, s2: a }),
      memo: ({ d }) => Memo({ sig: d }),
      local: ({ a }) => Local({ sig: a }),
      localB: ({ b }) => Local({ sig: b }),
      list: ({ a, c }) => [Reader({ sig: a }).withKey(1), Memo({ sig: c }).withKey(2)],
      list2: ({ a, c }) => [Memo({ sig: c }).withKey(2), Reader({ sig: a }).withKey(1)],
      eff: ({ a }, w) => createFragment([Reader({ sig: a, effect: () => w('a', 7) }), Reader({ sig: a, effect: () => () => w('a', 8) })]),
      eff2: ({ a, b }, w) => createFragment([Reader({ sig: a }), Reader({ sig: b, effect: () => w('a', 9) })]),
      ren: ({ a, b }, w) => createFragment([Reader({ sig: a }), createElementThatWrites(b, w)]),
    };
    const Writer = createComponent(function Writer({ sig, w }) {
      this.useMemo(() => w('a', 6), []);
      return html`<p>${this.use(sig)}</p>`;
    });
    function createElementThatWrites(b, w) {
      return Writer({ sig: b, w });
    }
    const EXPECT = {
      none: () => [], a: (v) => [v.a], b: (v) => [v.b], c: (v) => [v.c], hole: (v) => [v.a], holeB: (v) => [v.b], two: (v) => [v.a, v.b], two2: (v) => [v.b, v.a], memo: (v) => [v.d], local: (v) => [v.a + '!', v.own], localB: (v) => [v.b + '!', v.own], list: (v) => [v.a, v.c], list2: (v) => [v.c, v.a], eff: (v) => [v.a, v.a], eff2: (v) => [v.a, v.b], ren: (v) => [v.a, v.b],
    };
    async function readers([view0, ops], c) {
      host.reset('scheduler');
      cur = { subs: 0, own: null, shown: [] };
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      const ext = { v: 0 };
      const a = tracked(new Atom(0));
      const b = tracked(new Accessor(() => ext.v, (v) => (ext.v = v)));
      const cc = tracked(new Computed((x, y) => `${x}+${y}`, [a, b]));
      const d = tracked(cc.map((s) => (s.startsWith('0') ? 'zero' : s)));
      const sig = { a, b, c: cc, d };
      const write = (name, v) => {
        sig[name].value = v;
      };
      let view = view0;
      const render = (v, opts) => {
        view = v;
        root.render(VIEWS[v](sig, write), opts).finished.catch((e) => (cur.error = e));
      };
      render(view0, { flushSync: true });
      await host.settle();
      let history = '';
      const onStep = () => {
        history += container.textContent + '>';
      };
      const program = ops.map(([op, x, y]) => () => {
        if (op === 'w') write(x, y);
        else if (op === 'o') cur.own !== null && (cur.own.value = x);
        else if (op === 'R') render(x, {});
        else if (op === 'S') render(x, { flushSync: true });
        else if (op === 'T') render(x, { transition: 0 });
        else if (op === 'B') render(x, { priority: 'background' });
        else if (op === 'U') {
          view = 'none';
          root.unmount({ flushSync: true });
        }
      });
      const m = await interleave(host, drain, c, program, { onStep });
      if (m !== undefined) return m;
      await host.settle();
      if (cur.error !== undefined) return `a render failed: ${cur.error?.stack} ${cur.error?.cause?.stack}`;
      const v = { a: a.value, b: b.value, own: cur.own?.value };
      v.c = `${v.a}+${v.b}`;
      v.d = v.a === 0 ? 'zero' : v.c;
      // Updates of different priorities may take effect in another order than
      // issued; the view shown last is known only if they have the same.
      const kinds = new Set(ops.filter(([op]) => 'RSTBU'.includes(op)).map(([op]) => (op === 'U' ? 'S' : op)));
      const views = kinds.size <= 1 ? [view] : [view0, ...ops.filter(([op]) => 'RSTB'.includes(op)).map(([, x]) => x), 'none'];
      const got = [...container.querySelectorAll('p')].map((p) => p.textContent).join();
      if (!views.some((w) => EXPECT[w](v).join() === got)) return `the host is idle, the document shows ${got}; expected ${EXPECT[views[0]](v)}`;
      root.unmount({ flushSync: true });
      await host.settle();
      if (cur.subs !== 0) return `${cur.subs} subscriptions are left after unmounting`;
      for (const s of [a, b]) s.value = 99;
      await host.settle();
      if (ser(container) !== '') return `the container is not empty after unmounting: ${ser(container)}`;
      ctx.outcome(history + got);
    }
    await ctx.exploreSpace('readers', (function* () {
      const W = [['w', 'a', 1], ['w', 'a', 0], ['w', 'b', 1], ['w', 'a', 2]];
      const names = Object.keys(VIEWS);
      const mains = T ? names : ['none', 'a', 'c', 'holeB', 'two', 'memo', 'local', 'list', 'eff', 'eff2', 'ren'];
      for (const v of names) {
        for (const k of [1, 2]) for (const wd of words(W.length, k)) yield [v, wd.map((i) => W[i])];
        for (const k of T ? [3] : []) for (const wd of words(W.length, k)) yield [v, wd.map((i) => W[i])];
        for (const x of mains) {
          for (const op of ['R', 'S', 'T', 'B']) {
            for (const w of W) {
              yield [v, [[op, x], w]];
              yield [v, [w, [op, x]]];
              for (const w2 of T ? W : W.slice(0, 2)) {
                yield [v, [w, [op, x], w2]];
                yield [v, [[op, x], w, w2]];
              }
            }
          }
          for (const w of W) yield [v, [w, ['U'], ['S', x]]];
          for (const w of W) yield [v, [['U'], w, ['S', x]]];
          if (T) for (const y of mains) for (const w of W.slice(0, 2)) for (const op of ['R', 'S']) {
            yield [v, [[op, x], w, [op, y]]];
            yield [v, [w, [op, x], [op, y]]];
          }
        }
        if (v.startsWith('local')) for (const w of W) {
          yield [v, [['o', 1], w, ['R', v === 'local' ? 'localB' : 'local'], ['o', 2]]];
          yield [v, [['o', 1], ['o', 0], w]];
        }
      }
    })(), readers);
    ctx.count('states', ctx.distinctSet.size);
  },
};
