// C16 Element references against the set of elements they are bound to.
import { words } from '../lib/explore.mjs';

export default {
  id: 'C16',
  rule: 'an item is a history of references bound to elements (directly, keyed, from components or in lists), of mounts, unmounts and moves, and of independent updates; after every commit, and in every effect of it, references are compared with the elements that are in place, and the calls of reference callbacks and cleanups with the bindings that changed; distinct outcomes are distinct call logs',
  assumptions: ['a reference object bound to several elements holds one of them'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host } = dom;
    const { html, createBind, createComponent, Ref, Runtime, DOMAdapter, DOMRoot } = B;
    const T = ctx.thorough;
    const adapter = new DOMAdapter();
    const [toElement] = Object.getOwnPropertySymbols(Ref.prototype);

    // A world of references: callbacks log their calls with the slot they
    // concern, reference objects are inspected.
    function world() {
      const W = { log: [], refs: {}, initial: {}, bound: new Map(), everBound: new Set(), effects: [] };
      for (const name of ['R', 'S', 'Q']) {
        W.initial[name] = name === 'S' ? null : undefined;
        W.refs[name] = new Ref(W.initial[name]);
      }
      const ids = new Map();
      let n = 0;
      W.idOf = (el) => {
        if (!ids.has(el)) ids.set(el, `e${n++}`);
        return ids.get(el);
      };
      const cb = (name, cleans) => (el, ...rest) => {
        W.log.push(`+${name}(${W.idOf(el)})${rest.length > 0 ? ' with more arguments' : ''}`);
        if (!cleans) return undefined;
        let cleaned = 0;
        return (...args) => {
          cleaned++;
          W.log.push(`-${name}(${W.idOf(el)})${cleaned > 1 ? ' again' : ''}${args.length > 0 ? ' with arguments' : ''}`);
        };
      };
      const faulty = (name, cleans) => (el) => {
        W.log.push(`+${name}(${W.idOf(el)})`);
        if (!cleans) throw new Error('faulty callback');
        return () => {
          W.log.push(`-${name}(${W.idOf(el)})`);
          throw new Error('faulty cleanup');
        };
      };
      W.values = { x: faulty('x', false), y: faulty('y', true), a: cb('a', true), b: cb('b', true), c: cb('c', true), n: cb('n', false), null: null, undefined: undefined, ...W.refs };
      /**
       * Checks the state after a commit.  `slots` lists [slot, element, name]
       * for every binding that is in place.
       */
      W.check = (slots) => {
        const now = new Map(slots.map(([slot, el, name]) => [`${W.idOf(el)} ${slot}`, [el, name]]));
        const expected = [];
        for (const [slot, [el, name]] of W.bound) {
          const next = now.get(slot);
          if (next === undefined || next[1] !== name) if (isCallback(name) && !'nx'.includes(name)) expected.push(`-${name}(${W.idOf(el)})`);
        }
        for (const [slot, [el, name]] of now) {
          const old = W.bound.get(slot);
          if (old === undefined || old[1] !== name) if (isCallback(name)) expected.push(`+${name}(${W.idOf(el)})`);
        }
        const log = W.log.splice(0);
        if (log.slice().sort().join() !== expected.slice().sort().join()) return `the calls are ${log.join(' ') || 'none'}, expected ${expected.join(' ') || 'none'}`;
        // The cleanup precedes the callback that replaces it.
        for (const [slot, [el, name]] of W.bound) {
          const next = now.get(slot);
          if (next === undefined || next[1] === name || !isCallback(name) || 'nx'.includes(name) || !isCallback(next[1])) continue;
          const [i, j] = [log.indexOf(`-${name}(${W.idOf(el)})`), log.lastIndexOf(`+${next[1]}(${W.idOf(el)})`)];
          if (i > j) return `${next[1]} is called before ${name} is cleaned up (${log.join(' ')})`;
        }
        for (const name of Object.keys(W.refs)) {
          const els = [...now.values()].filter((x) => x[1] === name).map((x) => x[0]);
          if (els.length > 0) W.everBound.add(name);
          const current = W.refs[name].current;
          const show = (x) => (x == null ? String(x) : W.idOf(x));
          if (els.length === 0 ? current !== (W.everBound.has(name) ? null : W.initial[name]) : !els.includes(current)) return `reference ${name} holds ${show(current)}, but is bound to ${els.map(show).join(' and ') || 'nothing'}`;
          for (const [who, seen] of W.effects) if (seen[name] !== current && els.length < 2) return `an effect of ${who} saw ${show(seen[name])} in reference ${name}, which holds ${show(current)} after the commit`;
        }
        W.effects = [];
        W.bound = now;
        ctx.outcome(log.join(' '));
      };
      W.see = (who) => W.effects.push([who, Object.fromEntries(Object.entries(W.refs).map(([k, r]) => [k, r.current]))]);
      return W;
    }
    const isCallback = (name) => 'abcnxy'.includes(name);
    const Give = createComponent(function Give({ v }) {
      return v();
    });
    const keyedBind = (v, k) => (v instanceof Ref ? v[toElement]() : createBind(v)).withKey(k);
    const wrapValue = (v, w) => (w === 'k' ? keyedBind(v, 'k') : w === 'c' ? Give({ v: () => v }) : w === 'l' ? [v] : v);
    const Watch = createComponent(function Watch({ W, child, who }) {
      this.useEffect(() => void W.see(who));
      return child;
    });
    const start = () => {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      const W = world();
      let error;
      return {
        container,
        W,
        watch: (h) => h.finished.catch((e) => (error ??= e)),
        async render(v) {
          root.render(v, { flushSync: true }).finished.catch((e) => (error ??= e));
          await host.settle();
          if (error !== undefined) return `an update failed: ${error.stack} ${error.cause?.stack}`;
        },
        async unmount() {
          root.unmount({ flushSync: true }).finished.catch((e) => (error ??= e));
          await host.settle();
          if (error !== undefined) return `the unmount failed: ${error.stack}`;
        },
        failed: () => error && `an update failed: ${error.stack} ${error.cause?.stack}`,
      };
    };

    // One element (and one inside of it), values with wrappings.
    await ctx.space('values', (function* () {
      const al = ['/', ...['null', 'undefined', 'a', 'b', 'n', 'R', 'S'].map((v) => `v:${v}`), ...['k', 'c', 'l'].flatMap((w) => ['null', 'a', 'b', 'R'].map((v) => `${w}:${v}`))];
      for (let k = 1; k <= (T ? 4 : 3); k++) for (const w of words(al.length, k)) yield w.map((i) => al[i]);
    })(), async (hist) => {
      const { container, W, render, unmount } = start();
      for (const step of [...hist, 'end']) {
        const [w, name] = step.split(':');
        const p = step === 'end' ? await unmount() : await render(Watch({ W, who: 'the root', child: step === '/' ? html`<u></u>` : html`<p ${wrapValue(W.values[name], w)}>${step}</p>` }));
        if (p) return p;
        const q = W.check(step === '/' || step === 'end' ? [] : [[w, container.firstElementChild, name]]);
        if (q) return `after ${step}: ${q}`;
      }
      ctx.count('transitions', hist.length + 1);
    });

    // Callbacks and cleanups that throw do not affect other references.
    await ctx.space('faulty', (function* () {
      const vs = ['null', 'a', 'R', 'x', 'y'];
      const pairs = [...words(vs.length, 2), 'gone'].map((w) => (w === 'gone' ? w : w.map((i) => vs[i])));
      for (const k of T ? [1, 2, 3] : [1, 2]) for (const w of words(pairs.length, k)) for (const wrap of ['v', 'l']) yield [wrap, w.map((i) => pairs[i])];
      if (!T) for (const w of words(9, 3)) yield ['v', w.map((i) => [['x', 'y', 'R'][(i / 3) | 0], ['x', 'y', 'R'][i % 3]])];
    })(), async ([wrap, hist]) => {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      const W = world();
      let old = [];
      for (const values of [...hist, 'end']) {
        const v = typeof values === 'string' ? [] : values.map((x) => wrapValue(W.values[x], wrap));
        let state;
        const child = values === 'gone' ? html`<u></u>` : html`<p ${v[0]}><q ${v[1]}></q></p>`;
        const handle = values === 'end' ? root.unmount({ flushSync: true }) : root.render(Watch({ W, who: 'the root', child }), { flushSync: true });
        handle.finished.then(() => (state = 'resolved'), (e) => (state = e));
        await host.settle();
        const els = [...container.querySelectorAll('p,q')];
        const slots = typeof values === 'string' ? [] : values.map((x, i) => [wrap, els[i], x]);
        const fails = slots.some(([, , x], i) => x === 'x' && old[i] !== 'x') || old.some((x, i) => x === 'y' && slots[i]?.[2] !== 'y');
        if (fails !== state instanceof Error) return `after ${values} the update is ${state}`;
        if (fails && !/^faulty/.test(state.message)) return `after ${values}: ${state.stack}`;
        const q = W.check(slots);
        if (q) return `after ${values}: ${q}`;
        old = slots.map((x) => x[2]);
      }
      ctx.count('transitions', hist.length + 1);
    });

    // Two or three elements of one template sharing and exchanging references.
    await ctx.space('elements', (function* () {
      const vs = ['null', 'a', 'b', 'R', 'S'];
      const pairs = [...words(vs.length, 2)].map((w) => w.map((i) => vs[i]));
      for (const k of T ? [2, 3] : [2]) for (const w of words(pairs.length, k)) yield w.map((i) => pairs[i]);
      if (!T) for (const w of words(9, 3)) yield w.map((i) => [['R', 'S', 'null'][(i / 3) | 0], ['R', 'S', 'null'][i % 3]]);
      const vs3 = ['null', 'a', 'R', 'S'];
      const triples = [...words(vs3.length, 3)].map((w) => w.map((i) => vs3[i]));
      for (const w of words(triples.length, 2)) yield w.map((i) => triples[i]);
    })(), async (hist) => {
      const { container, W, render, unmount } = start();
      for (const values of [...hist, 'end']) {
        const v = values === 'end' ? [] : values.map((x) => W.values[x]);
        const child = v.length === 3 ? html`<p ${v[0]}><q ${v[1]}></q></p><r ${v[2]}></r>` : html`<p ${v[0]}><q ${v[1]}></q></p>`;
        const p = values === 'end' ? await unmount() : await render(Watch({ W, who: 'the root', child }));
        if (p) return p;
        const els = [...container.querySelectorAll('p,q,r')];
        const q = W.check(values === 'end' ? [] : values.map((x, i) => ['v', els[i], x]));
        if (q) return `after ${values}: ${q}`;
      }
      ctx.count('transitions', hist.length + 1);
    });

    // Several references at one element.
    await ctx.space('several', (function* () {
      const lists = [[], ...['a', 'R', 'S'].map((x) => [x]), ...[...words(4, 2)].map((w) => w.map((i) => ['a', 'b', 'R', 'S'][i])), ['R', 'S', 'a'], ['S', 'a', 'R'], ['a', 'null', 'R'], ['S', 'Q', 'R'], ['Q', 'R', 'S']];
      for (const k of T ? [2, 3] : [2]) for (const keyed of [false, true]) for (const w of words(lists.length, k)) {
        const hist = w.map((i) => lists[i]);
        if (!keyed || hist.every((l) => new Set(l).size === l.length)) yield [keyed, hist];
      }
      if (!T) for (const w of words(6, 3)) yield [false, w.map((i) => [['R', 'S'], ['S', 'R'], ['R'], ['a', 'R', 'S'], ['S', 'Q', 'R'], []][i])];
    })(), async ([keyed, hist]) => {
      const { container, W, render, unmount } = start();
      for (const list of [...hist, 'end']) {
        const p = list === 'end' ? await unmount() : await render(Watch({ W, who: 'the root', child: html`<p ${list.map((x) => (keyed ? keyedBind(W.values[x], x) : W.values[x]))}></p>` }));
        if (p) return p;
        const q = W.check(list === 'end' ? [] : list.map((x, i) => [keyed ? x : i, container.firstElementChild, x]));
        if (q) return `after ${list}: ${q}`;
      }
      ctx.count('transitions', hist.length + 1);
    });

    // Components binding references, updated independently of each other and
    // moved or removed by their parent.
    const setters = {};
    const Holder = createComponent(function Holder({ W, k, value }) {
      const [v, set] = this.useState(value);
      setters[k] = set;
      this.useEffect(() => void W.see(k));
      const own = this.useRef(null);
      this.useEffect(() => {
        if (own.current?.id !== k) W.log.push(`the own reference of ${k} holds ${own.current?.id} in its effect`);
      });
      return v === 'none' ? html`<i id=${k} ${own}></i>` : html`<p id=${k} ${[own, W.values[v]]}></p>`;
    });
    await ctx.space('components', (function* () {
      const vs = ['null', 'R', 'S', 'a', 'none'];
      const ops = [];
      for (const k of ['x', 'y']) for (const v of vs) ops.push([k, v]);
      for (const order of ['', 'x', 'xy', 'yx', 'y']) ops.push(['order', order]);
      for (const [x, y] of [['R', 'S'], ['R', 'R'], ['a', 'R'], ['none', 'S']]) for (let k = 1; k <= (T ? 4 : 3); k++) for (const w of words(ops.length, k)) yield [x, y, w.map((i) => ops[i])];
    })(), async ([x, y, ops]) => {
      const { container, W, render, unmount, watch, failed } = start();
      const state = { x, y };
      let order = 'xy';
      let mounted = {};
      for (const [kind, value] of [['order', 'xy'], ...ops, ['end']]) {
        if (kind === 'end') {
          const p = await unmount();
          if (p) return p;
          order = '';
        } else if (kind === 'order') {
          for (const k of 'xy') if (!value.includes(k)) state[k] = { x, y }[k];
          order = value;
          const p = await render(html`<${[...order].map((k) => Holder({ W, k, value: state[k] }).withKey(k))}>`);
          if (p) return p;
        } else {
          if (!order.includes(kind)) continue;
          state[kind] = value;
          watch(setters[kind](value, { flushSync: true }));
          await host.settle();
          if (failed()) return failed();
        }
        const slots = [];
        for (const k of order) if (state[k] !== 'none') slots.push(['v', container.querySelector(`#${k}`), state[k]]);
        const q = W.check(slots);
        if (q) return `after ${kind} ${value}: ${q}`;
      }
      ctx.count('transitions', ops.length + 2);
    });

    // Keyed items with references of their own or by position.
    await ctx.space('items', (function* () {
      const orders = ['', 'x', 'xy', 'yx', 'xyz', 'zxy', 'zyx', 'yz'];
      const bys = ['key', 'place', 'first', 'last'];
      for (const by of bys) for (const w of words(orders.length, T ? 4 : 3)) yield [by, w.map((i) => orders[i])];
    })(), async ([by, hist]) => {
      const { container, W, render, unmount } = start();
      for (const order of [...hist, 'end']) {
        const nameOf = (k, i) => {
          switch (by) {
            case 'key':
              return { x: 'R', y: 'a', z: 'S' }[k];
            case 'place':
              return ['R', 'b', 'S'][i];
            case 'first':
              return i === 0 ? 'R' : 'n';
            case 'last':
              return i === order.length - 1 ? 'S' : 'null';
          }
        };
        const p = order === 'end' ? await unmount() : await render(Watch({ W, who: 'the root', child: html`<ul><${[...order].map((k, i) => html`<li id=${k} ${W.values[nameOf(k, i)]}></li>`.withKey(k))}></ul>` }));
        if (p) return p;
        const q = W.check(order === 'end' ? [] : [...order].map((k, i) => ['v', container.querySelector(`#${k}`), nameOf(k, i)]));
        if (q) return `after ${order}: ${q}`;
      }
      ctx.count('transitions', hist.length + 1);
    });
    ctx.count('states', ctx.distinctSet.size);
  },
};
