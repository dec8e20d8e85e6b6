// C03 State is the fold of every dispatched action in dispatch order.
import { Handles, interleave, LANES, ser } from '../lib/concurrency.mjs';
import { words } from '../lib/explore.mjs';

const LETTERS = 'abcdefgh';

// kinds of state updates: functional append, functional no-op, plain value
const isSubsequence = (s, t) => {
  let i = 0;
  for (const ch of t) if (s[i] === ch) i++;
  return i === s.length;
};

export default {
  id: 'C03',
  rule: 'an item is a sequence of state updates (component x scheduling option x update kind); every interleaving of the updates with pending host callbacks is executed; on every step the displayed state must be a fold of a subset of the actions in dispatch order that never shrinks, and the final one the fold of all; distinct outcomes are distinct displayed-state histories',
  assumptions: ['host callbacks may run in any order', 'at most 4 updates in flight'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot, html, createComponent } = B;
    const adapter = new DOMAdapter(document);
    let cur;
    const text = (s) => html`<p>${s}</p>`;

    const Cell = createComponent(function Cell({ name, up }) {
      const [s, set] = this.useState('');
      const [r, dispatch] = this.useReducer((state, action) => state + action, '');
      cur.cells[name] = { set, dispatch };
      return text(`${name}=${s};${r};${up}`);
    });
    const Pair = createComponent(function Pair() {
      const [s, set] = this.useState('');
      const [r, dispatch] = this.useReducer((state, action) => state + action, '');
      cur.cells.P = { set, dispatch };
      return html`<div>${`P=${s};${r};`}<${[Cell({ name: 'X', up: s }), Cell({ name: 'Y', up: '-' })]}></div>`;
    });

    function read(container) {
      const out = {};
      for (const m of container.textContent.matchAll(/([PXY])=([a-z]*);([a-z]*);([a-z-]*)/g)) out[m[1]] = { s: m[2], r: m[3], up: m[4] };
      return out;
    }

    // item: [shape, [[cell, hook, lane], ...]]
    async function program([shape, plan], c) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const runtime = new Runtime(adapter);
      const root = new DOMRoot(container, runtime);
      cur = { cells: {} };
      root.render(shape === 'one' ? Cell({ name: 'X', up: '-' }) : Pair({}), { flushSync: true });
      await drain();
      const handles = new Handles();
      const sys = { handler: () => (commit) => new Promise((resolve) => host.add('handler', () => { commit(); resolve(); })) };
      const dispatched = {}; // cell.hook -> letters
      const shown = {};
      let history = '';
      const onStep = () => {
        const now = read(container);
        for (const [cell, v] of Object.entries(now)) {
          for (const h of ['s', 'r']) {
            const key = cell + h;
            const all = dispatched[key] ?? '';
            const got = v[h];
            if (!isSubsequence(got, all)) return `${key}: displayed "${got}" is not a fold of a subset of "${all}" in dispatch order`;
            for (const ch of shown[key] ?? '') if (!got.includes(ch)) return `${key}: update ${ch} was displayed ("${shown[key]}") and disappeared ("${got}")`;
            shown[key] = got;
          }
        }
        if (now.P !== undefined && now.X !== undefined && now.X.up !== now.P.s) return `child shows parent state "${now.X.up}" while the parent shows "${now.P.s}"`;
        history += container.textContent + '>';
      };
      const ops = plan.map(([cell, hook, lane], i) => () => {
        const ch = LETTERS[i];
        const key = cell + hook;
        dispatched[key] = (dispatched[key] ?? '') + ch;
        const o = LANES[lane](sys);
        const handle = hook === 's' ? cur.cells[cell].set((s) => s + ch, o) : cur.cells[cell].dispatch(ch, o);
        handles.add(handle, `#${i} ${cell}.${hook} ${lane}`, () => {
          const v = read(container)[cell]?.[hook];
          if (!v?.includes(ch)) return `handle of #${i} (${cell}.${hook} ${lane}) resolved while its effect is not displayed (shows "${v}")`;
        });
      });
      let m = await interleave(host, drain, c, ops, { onStep, syncOps: (i) => i >= 0 && plan[i][2].startsWith('sync') });
      if (m !== undefined) return m;
      await drain();
      m = onStep() ?? handles.check();
      if (m !== undefined) return m;
      const final = read(container);
      for (const [key, all] of Object.entries(dispatched)) {
        const got = final[key[0]][key[1]];
        if (got !== all) return `${key}: after quiescence the state is "${got}", the fold of all updates is "${all}"`;
      }
      ctx.outcome(history);
      ctx.sample([shape, plan, c.choices, history]);
    }

    const seqs = function* (shape, targets, lanes, n) {
      const alphabet = [];
      for (const [cell, hook] of targets) for (const l of lanes) alphabet.push([cell, hook, l]);
      for (const w of words(alphabet.length, n)) yield [shape, w.map((i) => alphabet[i])];
    };
    const T = ctx.thorough;
    const core = ['def', 'sync', 'ub', 't0', 't1'];
    await ctx.exploreSpace('one-1-2', (function* () {
      yield* seqs('one', [['X', 's']], Object.keys(LANES), 1);
      yield* seqs('one', [['X', 's']], Object.keys(LANES), 2);
    })(), program);
    await ctx.exploreSpace('one-3', seqs('one', [['X', 's']], T ? Object.keys(LANES) : ['def', 'sync', 'ub', 'uv', 't0', 't1', 'h', 'd1', 'ub_t0'], 3), program);
    await ctx.exploreSpace('one-4', seqs('one', [['X', 's']], T ? ['def', 'sync', 'ub', 't0', 't1', 'h'] : ['sync', 'ub', 't0'], 4), program);
    await ctx.exploreSpace('hooks-3', seqs('one', [['X', 's'], ['X', 'r']], T ? core : ['def', 'ub', 't0'], 3), program);
    await ctx.exploreSpace('pair-2', seqs('pair', [['P', 's'], ['X', 's'], ['Y', 's']], T ? Object.keys(LANES) : core, 2), program);
    await ctx.exploreSpace('pair-3', seqs('pair', [['P', 's'], ['X', 's']], T ? core : ['def', 'sync', 't0'], 3), program);

    // Plain values and actions that change nothing, under every interleaving.
    const PAY = { 0: 0, 1: 1, id: (n) => n, inc: (n) => n + 1, tog: (n) => 1 - n, nan: NaN };
    const fold = (list) => list.reduce((n, a) => (typeof PAY[a] === 'function' ? PAY[a](n) : PAY[a]), 0);
    const Num = createComponent(function Num() {
      const [s, set] = this.useState(() => 0);
      cur.set = set;
      return text(`${s};`);
    });
    async function values(plan, c) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = {};
      root.render(Num({}), { flushSync: true });
      await drain();
      const handles = new Handles();
      const done = [];
      let history = '';
      const onStep = () => {
        history += container.textContent;
        // the shown value is the fold of some subset in dispatch order
        const possible = new Set([0]);
        let front = [0];
        for (const a of done) {
          front = [...new Set(front.flatMap((n) => [n, typeof PAY[a] === 'function' ? PAY[a](n) : PAY[a]]))];
          for (const n of front) possible.add(n);
        }
        if (![...possible].some((n) => `${n};` === container.textContent)) return `shows ${container.textContent}, which is no fold of a subset of ${done}`;
      };
      const ops = plan.map(([a, lane, neq]) => () => {
        done.push(a);
        handles.add(cur.set(PAY[a], neq ? { ...LANES[lane]({}), areStatesEqual: () => false } : LANES[lane]({})), `${a} ${lane}`);
      });
      let m = await interleave(host, drain, c, ops, { onStep, syncOps: (i) => i >= 0 && plan[i][1].startsWith('sync') });
      if (m !== undefined) return m;
      await drain();
      m = onStep() ?? handles.check();
      if (m !== undefined) return m;
      const e = `${fold(done)};`;
      if (container.textContent !== e) return `after ${plan.map(([a, l]) => `${a}(${l})`).join(' ')} the state is ${container.textContent}, the fold is ${e}`;
      ctx.outcome(`v${history}`);
      ctx.sample([plan, c.choices, history]);
    }
    await ctx.exploreSpace('values', (function* () {
      const al = [];
      for (const a of Object.keys(PAY)) for (const l of T ? ['sync', 'ub', 't0'] : ['sync', 't0']) al.push([a, l]);
      for (let k = 1; k <= 3; k++) for (const w of words(al.length, k)) yield w.map((i) => al[i]);
      const al2 = [];
      for (const a of ['1', 'id', 'tog']) for (const l of ['sync', 't0']) for (const q of [false, true]) al2.push([a, l, q]);
      for (const w of words(al2.length, 3)) if (w.some((i) => al2[i][2])) yield w.map((i) => al2[i]);
      if (T) for (const w of words(al.length, 4)) if (w.every((i) => al[i][1] !== 'ub' && al[i][0] !== 'nan')) yield w.map((i) => al[i]);
    })(), values);

    // Reducers that change from render to render (between settled actions).
    const Red = createComponent(function Red({ by }) {
      const [s, dispatch] = this.useReducer((n, a) => n * 10 + a * by, cur.init === 'fn' ? () => 7 : 7);
      cur.dispatch.add(dispatch);
      return text(`${s};`);
    });
    const RLANES = ['sync', 'def', 't0', 'h'];
    await ctx.space('reducers', (function* () {
      const al = ['P', 'Q', ...RLANES, 'zero'];
      for (const init of ['fn', 'value']) for (let k = 1; k <= (T ? 6 : 5); k++) for (const w of words(al.length, k)) yield [init, w.map((i) => al[i])];
    })(), async ([init, ops]) => {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = { init, dispatch: new Set() };
      let by = 1;
      let s = 7;
      const sys = { handler: () => async (commit) => commit() };
      const render = async (o) => {
        root.render(Red({ by }), o);
        await host.settle();
      };
      await render({ flushSync: true });
      for (const op of ops) {
        if (op === 'P' || op === 'Q') {
          by++;
          await render(op === 'P' ? { flushSync: true } : {});
        } else {
          const a = op === 'zero' ? 0 : 1;
          s = s * 10 + a * by;
          [...cur.dispatch][0](a, op === 'zero' ? {} : LANES[op](sys));
          await host.settle();
        }
        if (cur.dispatch.size !== 1) return 'the dispatch function changed';
        if (container.textContent !== `${s};`) return `after ${op} the state is ${container.textContent}, the fold with the current reducer is ${s};`;
      }
      ctx.count('transitions', ops.length);
      ctx.outcome(`r${s}`);
    });

    // State that starts again from its initial value in every other render.
    const Pass = createComponent(function Pass({ v }) {
      const [s, set] = this.useState(cur.fn ? () => v : v, { passthrough: true });
      const [t, setT] = this.useState('-');
      cur.set = set;
      cur.setT = setT;
      return text(`${s};${t}`);
    });
    await ctx.space('passthrough', (function* () {
      const al = ['P', 'Q', 'a', 'b', 'two', 'other'];
      for (const fn of [false, true]) for (let k = 1; k <= (T ? 6 : 5); k++) for (const w of words(al.length, k)) yield [fn, w.map((i) => al[i])];
    })(), async ([fn, ops]) => {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = { fn };
      let v = 0;
      let t = '-';
      let shown = '0';
      root.render(Pass({ v: `${v}` }), { flushSync: true });
      await host.settle();
      for (const op of ops) {
        switch (op) {
          case 'P': case 'Q':
            shown = `${++v}`;
            root.render(Pass({ v: shown }), LANES[op === 'P' ? 'sync' : 't0']({}));
            break;
          case 'two':
            cur.set(`x${v}`, { flushSync: true });
            cur.set((shown = `y${v}`), { flushSync: true });
            break;
          case 'other':
            t += 't';
            shown = `${v}`;
            cur.setT(t, {});
            break;
          default:
            shown = op;
            cur.set(op, LANES[op === 'a' ? 'sync' : 't0']({}));
        }
        await host.settle();
        if (container.textContent !== `${shown};${t}`) return `after ${op} a passthrough state shows ${container.textContent}, expected ${shown};${t}`;
      }
      ctx.count('transitions', ops.length);
      ctx.outcome(`p${shown}`);
    });

    // Transient actions: shown by their own render, gone with the next render
    // in another lane; every other action is folded as if they were not there.
    const Opt = createComponent(function Opt({ v }) {
      const [s, dispatch] = this.useReducer((n, a) => n + a, '');
      cur.dispatch = dispatch;
      return text(`${v}:${s};`);
    });
    await ctx.space('transient', (function* () {
      const al = [['R', 'sync'], ['R', 't0'], ['R', 'ub'], ['T', 'sync'], ['T', 't0'], ['T', 't1'], ['P', 'sync'], ['P', 't1']];
      for (let k = 1; k <= (T ? 5 : 4); k++) for (const w of words(al.length, k)) yield w.map((i) => al[i]);
    })(), async (ops) => {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = {};
      let v = 0;
      const actions = [];
      root.render(Opt({ v }), { flushSync: true });
      await host.settle();
      for (const [i, [kind, lane]] of ops.entries()) {
        if (kind === 'P') {
          root.render(Opt({ v: ++v }), LANES[lane]({}));
        } else {
          actions.push({ ch: LETTERS[i], lane: kind === 'T' ? lane : undefined, at: i });
          cur.dispatch(LETTERS[i], { ...LANES[lane]({}), transient: kind === 'T' });
        }
        await host.settle();
        // an earlier transient action of this very lane may be shown again
        const must = actions.filter((a) => a.lane === undefined || a.at === i).map((a) => a.ch).join('');
        const may = actions.filter((a) => a.lane === undefined || a.lane === lane).map((a) => a.ch).join('');
        const got = container.textContent.slice(`${v}:`.length, -1);
        if (!isSubsequence(must, got) || !isSubsequence(got, may)) return `after ${ops.slice(0, i + 1).map((o) => o.join(' ')).join(', ')} the state is "${got}", expected "${must}"`;
      }
      ctx.count('transitions', ops.length);
      ctx.outcome(`o${container.textContent}`);
    });
    ctx.count('states', ctx.distinctSet.size);
  },
};
