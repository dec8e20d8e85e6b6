// C29 Roots do not affect each other.
import { interleave, LANES } from '../lib/concurrency.mjs';
import { words } from '../lib/explore.mjs';
import { ser } from '../lib/scene.mjs';

// How the two roots are set up: everything separate, one adapter, one runtime,
// or the second root inside an element shown by the first.
const SETUPS = ['separate', 'adapter', 'runtime', 'inside', 'insideRuntime'];

export default {
  id: 'C29',
  rule: 'an item is a way of setting up two roots and a word of operations for each (renders, state updates in several lanes, signal writes, events, failures in renders and effects, unmounts), in every merge of the two words (settled) or under every interleaving with host callbacks (overlapping); each root must go through what it goes through alone (differential oracle); distinct outcomes are distinct histories',
  assumptions: ['roots of one runtime may be updated in one batch, which is rejected as a whole if one of its updates fails'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { html, createComponent, createPortal, DOMAdapter, DOMRoot, Runtime, Atom } = B;
    const T = ctx.thorough;

    class Owner {
      constructor(my) {
        this.my = my;
      }
    }
    const Leaf = createComponent(function Leaf({ k }) {
      const { my } = this.inject(Owner);
      const [s, set] = this.useState(0);
      my.ids.set(this.useId(), `${my.name}${k}`);
      my.leaf[k] = set;
      this.useEffect(() => {
        my.log.push(`+${k}`);
        return () => my.log.push(`-${k}`);
      }, []);
      this.useEffect(() => {
        if (my.failing === 'effect' && k === 1) {
          my.failing = null;
          throw new Error(`effect of ${my.name}`);
        }
      });
      return html`<li title=${s} @click=${() => (my.log.push(`click ${k} ${s}`), set((x) => x + 10, { flushSync: true }))} ${(e) => {
        my.log.push(`ref ${k} ${e.localName}`);
        return () => my.log.push(`unref ${k}`);
      }}>${`${my.name}${k}`}</li>`;
    });
    const App = createComponent(function App({ my, version }) {
      this.provide(new Owner(my));
      const [n, dispatch] = this.useReducer((s, a) => `${s}${a}`, '');
      const [boom, setBoom] = this.useState(null);
      my.dispatch = dispatch;
      my.setBoom = setBoom;
      if (boom !== null) {
        my.setBoom = setBoom;
        throw boom;
      }
      const keys = [[1, 2, 3], [3, 1], [2, 3, 4, 1]][version];
      return html`<p class=${`v${version}`} .custom=${my.name}>${n}</p><${my.atom}><ul><${keys.map((k) => Leaf({ k }).withKey(k))}></ul><${my.inner ?? null}><${createPortal(html`<b>${n}</b>`, my.portal)}>`;
    });
    const Broken = createComponent(function Broken({ my }) {
      throw new Error(`broken ${my.name}`);
    });
    const Inner = createComponent(
      function Inner({ my }) {
        return html`<section ${(e) => {
          e.append(my.guest);
        }}></section>`;
      },
      { arePropsEqual: () => true },
    );

    function system(setup, only) {
      host.reset();
      const adapter = new DOMAdapter(document);
      const runtime = new Runtime(adapter);
      const mys = ['x', 'y'].map((name) => ({ name, log: [], ids: new Map(), leaf: {}, failing: null, atom: new Atom(0), portal: document.createElement('aside'), container: document.createElement('div'), handles: [], shown: null }));
      if (setup.startsWith('inside')) {
        mys[0].guest = mys[1].container;
        mys[0].inner = Inner({ my: mys[0] });
      }
      for (const my of mys) {
        const rt = setup === 'runtime' || setup === 'insideRuntime' ? runtime : new Runtime(setup === 'separate' ? new DOMAdapter(document) : adapter);
        my.root = new DOMRoot(my.container, rt);
      }
      if (only !== undefined) mys[1 - only].idle = true;
      return mys;
    }
    const track = (my, what, h) => {
      const rec = { what, state: 'pending' };
      my.handles.push(rec);
      h?.finished.then(
        () => (rec.state = 'resolved'),
        (e) => {
          rec.state = 'rejected';
          rec.error = e;
        },
      );
    };
    const act = (my, op, lane) => {
      const o = LANES[lane]({ handler: () => async (commit) => commit() });
      switch (op) {
        case '0':
        case '1':
        case '2':
          my.shown = op;
          return track(my, op, my.root.render(App({ my, version: Number(op) }), o));
        case 's':
          return my.dispatch && track(my, op, my.dispatch('s', o));
        case 'l':
          return my.leaf[1] && track(my, op, my.leaf[1]((x) => x + 1, o));
        case 'a':
          my.atom.value++;
          return;
        case 'f':
          return my.setBoom && track(my, op, my.setBoom(new Error(`boom ${my.name}`), o));
        case 'r':
          return my.setBoom && track(my, op, my.setBoom(null, o));
        case 'b':
          return track(my, op, my.root.render(Broken({ my }), o));
        case 'e':
          my.failing = 'effect';
          return my.leaf[1] && track(my, op, my.leaf[1]((x) => x + 1, o));
        case 'u':
          my.shown = null;
          return track(my, op, my.root.unmount(o));
        case 'c':
          my.container.querySelector('li')?.click();
          return;
      }
    };
    // What belongs to one root; the guest shown inside is left out.
    const view = (my) => {
      const guest = my.guest;
      const at = guest?.parentNode;
      if (at != null) at.removeChild(guest);
      const s = `${ser(my.container, { noComments: true })} | ${ser(my.portal, { noComments: true })} | ${[...my.container.querySelectorAll('p')].map((p) => p.custom)}`;
      if (at != null) at.append(guest);
      return s;
    };
    const nodesOf = (my) => [...my.container.querySelectorAll('*'), ...my.portal.querySelectorAll('*')].filter((n) => !my.guest?.contains(n));
    const outcome = (my) => my.handles.map((h) => `${h.what} ${h.state} ${h.error?.cause?.message ?? h.error?.message ?? ''}`).join();
    const balance = (my) => {
      const active = new Map();
      for (const l of my.log) {
        const m = /^([+-]|ref |unref )(\d)/.exec(l);
        if (m === null) continue;
        const id = `${m[1] === '+' || m[1] === '-' ? 'e' : 'r'}${m[2]}`;
        active.set(id, (active.get(id) ?? 0) + (m[1] === '+' || m[1] === 'ref ' ? 1 : -1));
      }
      return [...active].filter(([, n]) => n !== 0).map(([k, n]) => `${k}:${n}`).sort().join();
    };
    const ids = (mys) => {
      for (const id of mys[0].ids.keys()) if (mys[1].ids.has(id)) return `identifier ${id} is used in both roots`;
    };

    const alone = new Map();
    async function solo(setup, who, word) {
      const key = `${setup} ${who} ${word.join()}`;
      if (!alone.has(key)) {
        const mys = system(setup, who);
        const my = mys[who];
        const trace = [];
        for (const [op, lane] of word) {
          my.log.length = 0;
          act(my, op, lane);
          await host.settle();
          trace.push(`${view(my)} | ${my.log} | ${outcome(my)}`);
        }
        alone.set(key, trace);
        for (const kept of [dom.unhandled, dom.reported]) kept.length = 0;
      }
      return alone.get(key);
    }

    async function settled([setup, wx, wy, order]) {
      const traces = [await solo(setup, 0, wx), await solo(setup, 1, wy)];
      const mys = system(setup);
      const done = [0, 0];
      for (const who of order) {
        const my = mys[who];
        const other = mys[1 - who];
        const [op, lane] = [wx, wy][who][done[who]];
        my.log.length = 0;
        const before = [view(other), other.log.length, outcome(other), nodesOf(other)];
        act(my, op, lane);
        await host.settle();
        ctx.count('transitions');
        const n = done[who]++;
        const got = `${view(my)} | ${my.log} | ${outcome(my)}`;
        if (got !== traces[who][n]) return `operation ${n} (${op} ${lane}) of root ${my.name}\n got ${got}\nalone ${traces[who][n]}`;
        const after = [view(other), other.log.length, outcome(other), nodesOf(other)];
        for (let i = 0; i < 3; i++) if (before[i] !== after[i]) return `operation ${n} (${op} ${lane}) of root ${my.name} changed root ${other.name} from ${before[i]} to ${after[i]} ${other.log}`;
        if (before[3].length !== after[3].length || before[3].some((x, i) => x !== after[3][i])) return `operation ${n} (${op} ${lane}) of root ${my.name} replaced nodes of root ${other.name}`;
      }
      for (const kept of [dom.unhandled, dom.reported]) kept.length = 0;
      ctx.outcome(`${view(mys[0])} ${view(mys[1])}`);
      return ids(mys);
    }
    function merges(n, m) {
      if (n === 0) return [Array(m).fill(1)];
      if (m === 0) return [Array(n).fill(0)];
      return [...merges(n - 1, m).map((w) => [0, ...w]), ...merges(n, m - 1).map((w) => [1, ...w])];
    }
    const OPS = [['0', 'sync'], ['1', 'def'], ['2', 't0'], ['s', 'sync'], ['l', 'ub'], ['a', 'def'], ['f', 'sync'], ['r', 'sync'], ['b', 'def'], ['e', 'sync'], ['u', 'sync'], ['c', 'def']];
    // Words that start with a render; what follows is arbitrary.
    const W = (k, starts = ['0']) => starts.flatMap((s) => Array.from({ length: k }, (_, i) => [...words(OPS.length, i + 1)]).flat().map((w) => [[s, 'sync'], ...w.map((i) => OPS[i])]));
    await ctx.space('settled', (function* () {
      const long = W(T ? 3 : 2);
      const short = W(1);
      for (const setup of SETUPS) for (const wx of long) for (const wy of short) {
        for (const order of merges(wx.length - 1, wy.length - 1)) {
          yield [setup, wx, wy, [0, 1, ...order]];
          yield [setup, wy, wx, [1, 0, ...order.map((x) => 1 - x)]];
        }
      }
      // Also before the other one has been rendered at all.
      for (const setup of SETUPS.filter((s) => !s.startsWith('inside'))) for (const wx of short) for (const wy of short) for (const order of merges(2, 2)) yield [setup, wx, wy, order];
    })(), settled);

    // Both roots at once.  The second one never fails.
    async function overlapping([setup, wx, wy], c) {
      const mys = system(setup);
      for (const my of mys) act(my, '0', 'sync');
      await host.settle();
      for (const kept of [dom.unhandled, dom.reported]) kept.length = 0;
      const ops = [];
      const order = merges(wx.length, wy.length);
      const done = [0, 0];
      for (const who of order[c.choose(order.length, 'order')]) {
        const [op, lane] = [wx, wy][who][done[who]++];
        ops.push(() => act(mys[who], op, lane));
      }
      const failing = wx.some(([op]) => 'fbe'.includes(op));
      const problem = await interleave(host, drain, c, ops);
      if (problem !== undefined) return problem;
      for (const [who, my] of mys.entries()) {
        if (who === 0 && failing) {
          if (my.handles.some((h) => h.state === 'pending')) return `an update of root ${my.name} never settled: ${outcome(my)}`;
          if (wx.length === 1) {
            const want = (await soloFinal(setup, who, wx)).outcome;
            if (outcome(my) !== want) return `updates of root ${my.name} ended as ${outcome(my)}, alone as ${want}`;
          }
          continue;
        }
        const want = await soloFinal(setup, who, [wx, wy][who]);
        if (view(my) !== want.view) return `root ${my.name} shows ${view(my)}, alone ${want.view}`;
        if (outcome(my) !== want.outcome) return `updates of root ${my.name} ended as ${outcome(my)}, alone as ${want.outcome}`;
        if (balance(my) !== want.balance) return `root ${my.name} has the effects and references ${balance(my)}, alone ${want.balance}`;
      }
      for (const kept of [dom.unhandled, dom.reported]) kept.length = 0;
      ctx.outcome(`${view(mys[0])} ${view(mys[1])} ${outcome(mys[0])}`);
      return ids(mys);
    }
    const finals = new Map();
    async function soloFinal(setup, who, word) {
      const key = `${setup} ${who} ${word.join()}`;
      if (!finals.has(key)) {
        const saved = [host.tasks, host.seq, host.mode, host.rafPairing];
        const mys = system(setup, who);
        const my = mys[who];
        act(my, '0', 'sync');
        await host.settle();
        for (const [op, lane] of word) act(my, op, lane);
        await host.settle();
        finals.set(key, { view: view(my), outcome: outcome(my), balance: balance(my) });
        [host.tasks, host.seq, host.mode, host.rafPairing] = saved;
      }
      return finals.get(key);
    }
    const lanes = T ? ['def', 'sync', 'ub', 'bg', 't0', 't1', 'd1', 'h'] : ['def', 'sync', 'ub', 't0'];
    await ctx.exploreSpace('overlapping', (function* () {
      for (const setup of SETUPS) {
        const one = setup === 'runtime' || setup === 'insideRuntime';
        const X = ['1', 's', 'l', 'u', ...(one ? [] : ['f', 'b', 'e'])];
        for (const ox of X) for (const lx of lanes) for (const oy of ['2', 's', 'l', 'a', 'u']) for (const ly of oy === 'a' ? ['def'] : lanes) {
          yield [setup, [[ox, lx]], [[oy, ly]]];
          if (!T && lx !== ly && lx !== 'sync' && ly !== 'def') continue;
          if (oy !== 'u') yield [setup, [[ox, lx]], [[oy, ly], ['s', 'def']]];
          if (!'ufbe'.includes(ox)) yield [setup, [[ox, lx], ['l', 'ub']], [[oy, ly]]];
        }
      }
    })(), overlapping, { bound: T ? 4 : 3 });
    ctx.count('states', ctx.distinctSet.size);
  },
};
