// C18 Memos, references, callbacks, setters and identifiers.
import { words } from '../lib/explore.mjs';
import { exotic } from '../lib/values.mjs';

export default {
  id: 'C18',
  rule: 'an item is a history of renders with the dependencies, the hooks or the instances of each; results and computations are compared with a model that compares dependencies with Object.is; distinct outcomes are distinct patterns of recomputation, rejection and identity',
  assumptions: ['runtimes of one document use adapters of their own', 'dependency arrays are not modified after they were passed'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host } = dom;
    const { html, createComponent, Ref, Runtime, DOMAdapter, DOMRoot } = B;
    const T = ctx.thorough;
    const adapter = new DOMAdapter();
    const o1 = {};
    const o2 = {};
    const DEPS = { none: [], zero: [0], mzero: [-0], nan: [NaN], szero: ['0'], zz: [0, 0], zo: [0, o1], oz: [o1, 0], o1: [o1], o2: [o2], undef: [undefined], nul: [null], hole: [undefined, undefined], missing: undefined, null: null };
    const changed = (a, b) => a == null || b == null || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]));
    const start = () => {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      return { container, root };
    };
    const settle = async (handle) => {
      let state;
      handle.finished.then(() => (state = 'resolved'), (e) => (state = e));
      await host.settle();
      return state;
    };

    // One component whose memos get the given dependencies in every render.
    // A step is [dependencies of the memo, of the callback, fault].
    async function memo([how, steps]) {
      const { root } = start();
      let seen; // of the latest render
      let computed;
      let step;
      let n = 0;
      let force;
      const X = createComponent(function X() {
        const [, setState] = this.useState(0);
        const [, dispatch] = this.useReducer((s) => s, 0);
        force = setState;
        const cb = () => {};
        const value = this.useMemo(() => {
          computed++;
          if (step[2] === 'compute') throw new Error('planned');
          return { n };
        }, DEPS[step[0]]);
        const callback = this.useCallback(cb, DEPS[step[1]]);
        const ref = this.useRef(n);
        const id = this.useId();
        const untouched = this.use((c) => c.useMemo(() => ({ n }), []));
        seen = { value, callback, cb, ref, id, untouched, setState, dispatch };
        if (step[2] === 'throw') throw new Error('planned');
        return html`<p>${n}</p>`;
      });
      let model; // {deps, deps2, value, callback, ...} of the instance
      let committed = false;
      let log = '';
      for (const s of steps) {
        step = s;
        n++;
        seen = undefined;
        computed = 0;
        if (!committed) model = undefined;
        const state = await settle(how === 'root' || !committed ? root.render(X({ n }), { flushSync: true }) : force((x) => x + 1, { flushSync: true }));
        const recompute = model === undefined || changed(model.deps, DEPS[step[0]]);
        const fails = step[2] === 'throw' || (step[2] === 'compute' && recompute);
        if (fails !== state instanceof Error) return `step ${n}: the update is ${state?.stack ?? state}`;
        if (computed !== (recompute ? 1 : 0)) return `step ${n}: the memo was computed ${computed} times, although its dependencies ${recompute ? 'changed' : 'did not change'}`;
        log += recompute ? 'R' : '-';
        if (seen === undefined) {
          if (!(step[2] === 'compute' && recompute)) return `step ${n}: the component did not render`;
          continue;
        }
        if (model === undefined) {
          model = { ...seen };
          if (seen.callback !== seen.cb) return `step ${n}: the callback is not the one that was passed`;
          if (!(seen.ref instanceof Ref) || seen.ref.current !== n) return `step ${n}: the reference does not hold its initial value`;
        } else {
          const renew = changed(model.deps2, DEPS[step[1]]);
          log += renew ? 'C' : '-';
          if ((seen.value !== model.value) !== recompute) return `step ${n}: the memoized value ${recompute ? 'is the previous one' : 'changed'}`;
          if (seen.callback !== (renew ? seen.cb : model.callback)) return `step ${n}: the callback should ${renew ? 'change' : 'keep its identity'}`;
          for (const k of ['ref', 'id', 'untouched', 'setState', 'dispatch']) if (seen[k] !== model[k]) return `step ${n}: ${k} changed`;
        }
        if (seen.value.n !== n && recompute) return `step ${n}: the memoized value is of step ${seen.value.n}`;
        Object.assign(model, { value: seen.value, callback: seen.callback, deps: DEPS[step[0]], deps2: DEPS[step[1]] });
        if (!fails) committed = true;
      }
      ctx.count('transitions', steps.length);
      ctx.outcome(log);
    }
    await ctx.space('memo', (function* () {
      const names = Object.keys(DEPS);
      for (const how of ['root', 'state']) {
        for (let k = 1; k <= (T ? 5 : 4); k++) for (const w of words(names.length, k)) if (k < 5 || w.every((i) => i % 2 === 0)) yield [how, w.map((i, j) => [names[i], names[w[(j * 7 + 3) % k]], null])];
        for (const w of words(names.length, 4)) yield [how, [[names[w[0]], names[w[1]], null], [names[w[2]], names[w[3]], null]]];
        const few = ['zero', 'mzero', 'o1', 'missing'];
        const al = few.flatMap((d) => [null, 'throw', 'compute'].map((f) => [d, 'none', f]));
        for (const w of words(al.length, T ? 5 : 4)) yield [how, w.map((i) => al[i])];
      }
    })(), memo);

    // Different hooks from one render to the next.
    const KIND = { s: 'state', r: 'state', m: 'memo', c: 'memo', f: 'memo', u: 'memo', e: 'effect', i: 'id' };
    await ctx.space('hooks', (function* () {
      const al = Object.keys(KIND);
      const few = ['s', 'm', 'e', 'i'];
      const upto = (a, k) => {
        const out = [];
        for (let n = 0; n <= k; n++) for (const w of words(a.length, n || 1)) if (n > 0) out.push(w.map((i) => a[i]).join(''));
        return ['', ...out];
      };
      const short = upto(al, 2);
      const long = upto(few, T ? 4 : 3);
      for (const how of ['root', 'state']) {
        for (const a of short) for (const b of short) yield [how, [a, b, a]];
        for (const a of long) for (const b of long) if (T || a.length + b.length > 3) yield [how, [a, b, a, b]];
      }
    })(), async ([how, renders]) => {
      const { root, container } = start();
      let now;
      let n = 0;
      let results;
      let force;
      const ran = [];
      const X = createComponent(function X() {
        const [, set] = this.useState(0);
        force = set;
        const out = [];
        for (const [i, h] of [...now].entries()) {
          const mine = n;
          switch (h) {
            case 's':
              out.push(this.useState(() => ({ s: i }))[0]);
              break;
            case 'r':
              out.push(this.useReducer((s) => s, () => ({ s: i }))[0]);
              break;
            case 'm':
              out.push(this.useMemo(() => ({ m: i }), []));
              break;
            case 'c':
              out.push(this.useCallback(() => i, []));
              break;
            case 'f':
              out.push(this.useRef(i));
              break;
            case 'u':
              out.push(this.use({ onUse: (c) => c.useMemo(() => ({ u: i }), []) }));
              break;
            case 'e':
              this.useEffect(() => void ran.push(mine));
              out.push(undefined);
              break;
            case 'i':
              out.push(this.useId());
              break;
          }
        }
        results = out;
        return html`<p>${n}</p>`;
      });
      let first;
      let log = '';
      for (const w of renders) {
        now = w;
        n++;
        ran.length = 0;
        const state = await settle(how === 'root' || n === 1 ? root.render(X({ n }), { flushSync: true }) : force((x) => x + 1, { flushSync: true }));
        const same = w.length === renders[0].length && [...w].every((h, i) => KIND[h] === KIND[renders[0][i]]);
        if (!same) {
          if (!(state instanceof Error)) return `render ${n} with the hooks "${w}" instead of "${renders[0]}" is ${state}`;
          if (ran.length > 0) return `render ${n} was rejected, but its effects ran`;
          if (container.textContent !== String(n - 1) && container.textContent !== '1') return `render ${n} was rejected, but shown`;
          log += 'x';
          continue;
        }
        if (state !== 'resolved') return `render ${n} with the hooks "${w}" fails: ${state?.stack} ${state?.cause?.stack}`;
        if (container.textContent !== String(n)) return `render ${n} is not shown`;
        const effects = [...w].filter((h) => h === 'e').length;
        if (ran.length !== effects || ran.some((x) => x !== n)) return `render ${n} ran effects ${ran}`;
        first ??= results;
        for (let i = 0; i < w.length; i++) if (results[i] !== first[i]) return `render ${n}: hook ${i} ("${w[i]}") lost its data`;
        log += '.';
      }
      ctx.count('transitions', renders.length);
      ctx.outcome(renders[0] + log);
    });

    // Instances keep what is theirs while they are moved, added and removed,
    // and share nothing.
    await ctx.space('instances', (function* () {
      const orders = ['', 'x', 'y', 'xy', 'yx', 'xyz', 'zxy', 'yzx'];
      for (const w of words(orders.length, T ? 5 : 4)) yield w.map((i) => orders[i]);
    })(), async (hist) => {
      host.reset('scheduler');
      const runtime = new Runtime(adapter);
      const containers = [0, 1].map(() => document.createElement('div'));
      const roots = [new DOMRoot(containers[0], runtime), new DOMRoot(containers[1], runtime), new DOMRoot(document.createElement('div'), new Runtime(new DOMAdapter())), new DOMRoot(document.createElement('div'), new Runtime(adapter))];
      let seen;
      const Inner = createComponent(function Inner({ k }) {
        seen[`${k}/inner`] = [this.useId(), this.useRef(null)];
        return null;
      });
      const Item = createComponent(function Item({ k }) {
        const id = this.useId();
        seen[k] = [id, this.useMemo(() => ({}), [k]), this.useRef(k), this.useState(() => ({}))[0], this.useId()];
        if (document.getElementById(id) !== null) throw new Error(`${id} is in use`);
        return html`<label for=${id}></label><input id=${id}>${'' /* text */}<${Inner({ k })}>`;
      });
      const live = new Map();
      const everUsed = new Map();
      for (const [n, order] of hist.entries()) {
        for (const r of [0, 1, 2, 3]) {
          seen = {};
          const keys = r === 1 ? [...order].reverse() : [...order];
          const state = await settle(roots[r].render(keys.map((k) => Item({ k, n }).withKey(k)), { flushSync: true }));
          if (state !== 'resolved') return `step ${n} fails: ${state?.stack} ${state?.cause?.stack}`;
          for (const k of 'xyz') for (const who of [k, `${k}/inner`]) {
            const slot = `${r} ${who}`;
            if (!order.includes(k)) {
              live.delete(slot);
              continue;
            }
            const now = seen[who];
            const old = live.get(slot);
            if (old !== undefined) {
              if (now.some((x, i) => x !== old[i])) return `step ${n}: instance ${slot} changed`;
            } else {
              for (const x of now) {
                if (everUsed.has(x)) return `step ${n}: the new instance ${slot} shares ${String(x)} with ${everUsed.get(x)}`;
                everUsed.set(x, slot);
              }
              live.set(slot, now);
            }
          }
          if (r < 2 && [...containers[r].querySelectorAll('input')].some((el) => !el.id || containers[r].querySelectorAll(`[for="${el.id}"]`).length !== 1)) return `step ${n}: identifiers do not belong together`;
        }
      }
      ctx.count('transitions', hist.length * 3);
      ctx.outcome(hist.join());
    });
    // Many identifiers, in one render and over many.
    await ctx.space('many', (function* () {
      for (const hooks of [1, 3, 40]) for (const n of [1, 20, 70, 300]) for (const times of [1, 2, 20]) for (const lane of ['sync', 'async']) if (hooks * n * times <= (T ? 40000 : 13000)) yield [hooks, n, times, lane];
    })(), async ([hooks, n, times, lane]) => {
      host.reset('scheduler');
      const runtime = new Runtime(adapter);
      const used = new Set();
      let bad;
      const Item = createComponent(function Item() {
        const [made] = this.useState(() => ({ ids: null }));
        const ids = Array.from({ length: hooks }, () => this.useId());
        if (made.ids === null) {
          made.ids = ids;
          for (const id of ids) {
            if (used.has(id)) bad ??= `identifier ${id} is given twice`;
            if (!/^[A-Za-z][\w-]*$/.test(id)) bad ??= `identifier ${id} is no name`;
            used.add(id);
          }
        } else if (ids.some((id, i) => id !== made.ids[i])) bad ??= 'identifiers change';
        return null;
      }, { arePropsEqual: () => false });
      const roots = Array.from({ length: times }, () => new DOMRoot(document.createElement('div'), runtime));
      for (const again of [0, 1]) for (const root of roots) {
        const state = await settle(root.render(Array.from({ length: n }, () => Item({ again })), lane === 'sync' ? { flushSync: true } : { priority: 'background' }));
        if (state !== 'resolved') return `rendering fails: ${state?.stack} ${state?.cause?.stack}`;
        if (bad !== undefined) return bad;
      }
      if (used.size !== hooks * n * times) return `${used.size} identifiers for ${hooks * n * times} calls`;
      ctx.count('transitions', times * 2);
      ctx.outcome(`many${used.size}`);
    });
    // Values of every kind are handed through as they are.
    const { values: V, log: touched } = exotic(B);
    const isFn = (x) => typeof V[x] === 'function';
    const SLOTS = ['state', 'functional', 'reducer', 'action', 'memo', 'dep', 'effect-dep', 'ref', 'callback', 'prop', 'props', 'key', 'hook', 'object', 'transition', 'property', 'throw', 'effect-throw', 'cleanup-throw'];
    await ctx.space('values', (function* () {
      const names = Object.keys(V);
      for (const slot of SLOTS) for (const a of names) for (const b of names) {
        if (slot === 'callback' && !(isFn(a) && isFn(b))) continue;
        if (slot === 'property' && ['element', 'signal', 'arr', 'iterable', 'map', 'revoked'].some((x) => x === a || x === b)) continue;
        // Props are objects normally, and compared as such.
        if (slot === 'props' && V[a] === V[b] && !Object.is(V[a], V[b])) continue;
        yield [slot, a, b];
      }
    })(), async ([slot, a, b]) => {
      const { root, container } = start();
      touched.length = 0;
      let now = a; // the name of the value
      let seen;
      let mark;
      let set;
      let effects = 0;
      const X = createComponent(function X(props) {
        const [, force] = this.useState(0);
        mark = this.useRef(null);
        let dispatch = force;
        const v = V[now];
        switch (slot) {
          case 'state':
          case 'functional':
            [seen, dispatch] = this.useState(() => V[a]);
            break;
          case 'reducer':
            [seen, dispatch] = this.useReducer((_, n) => V[n], () => V[a]);
            break;
          case 'action':
            [seen, dispatch] = this.useReducer((_, x) => ({ x }), () => ({ x: V[a] }));
            seen = seen.x;
            break;
          case 'memo':
            seen = this.useMemo(() => v, [now]);
            break;
          case 'dep':
            seen = this.useMemo(() => ({ v }), [v]).v;
            break;
          case 'effect-dep':
            this.useEffect(() => {
              effects++;
            }, [v]);
            seen = v;
            break;
          case 'ref': {
            const ref = this.useRef(V[a]);
            if (now !== a) ref.current = v;
            else if (effects++ > 0) ref.current = v;
            seen = ref.current;
            break;
          }
          case 'callback':
            seen = this.useCallback(v, [now]);
            break;
          case 'prop':
            seen = props.v;
            break;
          case 'props':
            seen = props;
            break;
          case 'hook':
            seen = this.use(() => v);
            break;
          case 'object':
            seen = this.use({ onUse: () => v });
            break;
          case 'transition':
            seen = this.startTransition(() => v);
            break;
          case 'throw':
            if (mark.current !== null) throw v;
            break;
          case 'effect-throw':
            this.useEffect(() => {
              if (effects++ > 0) throw v;
            });
            break;
          case 'cleanup-throw':
            this.useEffect(() => () => {
              effects++;
              throw v;
            });
            break;
          default:
            seen = v;
        }
        set = dispatch;
        return html`<p .custom=${slot === 'property' ? v : 0} ${slot === 'throw' ? (el) => (mark.current = el) : null}></p>`;
      });
      const view = () => {
        if (slot === 'props') return X(V[now]);
        const x = X({ v: V[now] });
        return slot === 'key' ? x.withKey(V[now]) : x;
      };
      let log = '';
      let prev;
      const keep = new Map();
      for (const name of [a, b, b, a]) {
        const first = prev === undefined;
        const same = !first && Object.is(V[prev], V[name]);
        now = name;
        const before = effects;
        const markBefore = mark;
        seen = keep;
        let handle;
        if (first || ['prop', 'props', 'key'].includes(slot)) handle = root.render(view(), { flushSync: true });
        else if (slot === 'state') handle = set(isFn(name) ? () => V[name] : V[name], { flushSync: true });
        else if (slot === 'functional') handle = set(() => V[name], { flushSync: true });
        else if (slot === 'reducer') handle = set(name, { flushSync: true });
        else if (slot === 'action') handle = set(V[name], { flushSync: true });
        else handle = set((n) => n + 1, { flushSync: true });
        let outcome;
        handle.finished.then(() => (outcome = ['resolved']), (e) => (outcome = ['rejected', e]));
        await host.settle();
        const fails = slot.endsWith('throw') && !first;
        if (outcome[0] !== (fails ? 'rejected' : 'resolved')) return `step ${name}: the update is ${outcome[0]}`;
        if (fails) {
          const cause = slot === 'throw' ? outcome[1].cause : outcome[1];
          // A cleanup throws what its own render had.
          const want = slot === 'cleanup-throw' ? V[prev] : V[name];
          if (!Object.is(cause, want)) return `step ${name}: the update is rejected with something else than the value thrown`;
        } else if (slot === 'property') {
          if (!Object.is(container.querySelector('p').custom, V[name])) return `step ${name}: the property has another value`;
        } else if (slot.endsWith('throw') === false) {
          const skipped = seen === keep;
          if (skipped && !(same && ['state', 'functional', 'reducer', 'props', 'key'].includes(slot))) return `step ${name}: the component was not rendered`;
          if (!skipped && !Object.is(seen, V[name])) return `step ${name}: another value is seen`;
          if (skipped !== (same && ['state', 'functional', 'reducer'].includes(slot))) log += skipped ? 's' : 'r';
        }
        if (slot === 'effect-dep' && effects - before !== (same ? 0 : 1)) return `step ${name}: the effect ran ${effects - before} times`;
        if (slot === 'key' && !first && (mark === markBefore) !== same) return `step ${name}: the instance was ${same ? 'replaced' : 'kept'}`;
        if (slot !== 'key' && !first && mark !== markBefore) return `step ${name}: the instance was replaced`;
        prev = name;
      }
      if (touched.length > 0) return `${touched[0]}`;
      ctx.outcome(`v${slot}${Object.is(V[a], V[b])}${log}`);
      ctx.count('transitions', 4);
    });
    ctx.count('states', ctx.distinctSet.size);
  },
};
