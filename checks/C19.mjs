// C19 Hook add-ons: external stores, deferred values, transitions, effect events, imperative handles.
import { Handles, interleave, LANES } from '../lib/concurrency.mjs';
import { words } from '../lib/explore.mjs';
import { exotic } from '../lib/values.mjs';

export default {
  id: 'C19',
  rule: 'items are (a) a sequence of store changes, re-subscriptions, re-renders and unmounts, (b) a sequence of value changes of a deferred value, (c) a sequence of overlapping transitions with synchronous, asynchronous, failing and throwing work, (d) a sequence of renders (also failing) of an effect event, all under every interleaving with host callbacks, (e) a history of a keyed list of components handing out handles, and (f) pairs of values of every kind handed through each add-on; distinct outcomes are distinct histories',
  assumptions: ['a reference is given to at most one component at a time', 'effect events are called between host callbacks or by later effects of their component'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot, html, createComponent, Ref, SyncExternalStore, DeferredValue, Transition, EffectEvent, ImperativeHandle } = B;
    const adapter = new DOMAdapter(document);
    const T = ctx.thorough;
    let cur;
    const start = (value) => {
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      root.render(value, { flushSync: true });
      return { container, root };
    };

    // ---- (a) external stores
    class Store {
      value = 0;
      subs = [];
      constructor(eager, silent) {
        this.subscribe = (f) => {
          const sub = { f };
          this.subs.push(sub);
          if (eager) f();
          return silent ? undefined : () => {
            const i = this.subs.indexOf(sub);
            if (i < 0) cur.problem ??= 'unsubscribed twice';
            else this.subs.splice(i, 1);
          };
        };
        this.plain = () => this.value;
        this.tens = () => this.value * 10;
        this.cap = () => Math.min(this.value, 1); // changes only once
        this.never = () => {};
      }
      set(v) {
        this.value = v;
        for (const s of [...this.subs]) s.f();
      }
    }
    const Reader = createComponent(function Reader({ which, sel, off }) {
      const store = cur.stores[which];
      const v = this.use(SyncExternalStore(off ? store.never : store.subscribe, store[sel]));
      const [n, set] = this.useState(0);
      cur.setReader = set;
      return html`<p>${which}.${sel}=${v};${n}</p>${off ? '(off)' : ''}`;
    });
    const Holder = createComponent(function Holder() {
      const [st, set] = this.useState({ on: true, which: 0, sel: cur.sel, off: false });
      cur.set = set;
      return html`<div><${st.on ? Reader({ which: st.which, sel: st.sel, off: st.off }) : null}></div>`;
    });
    async function stores([flavour, ops, sel = 'plain'], c) {
      host.reset('scheduler');
      cur = { stores: [0, 1].map(() => new Store(flavour === 'eager', flavour === 'silent')), problem: undefined, setReader: null, sel };
      const { container, root } = start(Holder({}));
      await drain();
      const model = { on: true, which: 0, sel, off: false };
      let n = 0;
      let v = 0;
      let history = '';
      const handles = new Handles();
      const onStep = () => {
        const shown = container.textContent;
        history += shown + '>';
        if (cur.problem !== undefined) return cur.problem;
        // nothing is being committed: what is shown is current at once
        if (shown !== '' && !shown.endsWith('(off)') && !host.tasks.some((t) => t.kind === 'raf')) {
          const [, which, sel, value] = shown.match(/^(\d)\.(\w+)=(\d+);/);
          if (String(cur.stores[which][sel]()) !== value) return `no commit is waiting and the document shows ${shown}, ${sel} of store ${which} is ${cur.stores[which][sel]()}`;
        }
      };
      const upd = (patch, o) => {
        Object.assign(model, patch);
        handles.add(cur.set((s) => ({ ...s, ...patch }), o), JSON.stringify(patch));
      };
      const run = ops.map(([op, lane]) => () => {
        const o = LANES[lane ?? 'def']({});
        switch (op) {
          case 's0':
          case 's1':
            cur.stores[+op[1]].set(++v);
            break;
          case 'z0': // changes and changes back
            cur.stores[0].set(++v + 100);
            cur.stores[0].set(0);
            break;
          case 'b0': // back to the initial value
            cur.stores[0].set(0);
            break;
          case 'R':
            if (cur.setReader !== null) {
              n++;
              cur.setReader((n) => n + 1, o);
            }
            break;
          case 'T':
            upd({ on: !model.on }, o);
            break;
          case 'W':
            upd({ which: 1 - model.which }, o);
            break;
          case 'G':
            upd({ sel: model.sel === 'plain' ? 'tens' : 'plain' }, o);
            break;
          case 'C':
            upd({ sel: model.sel === 'plain' ? 'cap' : 'plain' }, o);
            break;
          case 'N':
            upd({ off: !model.off }, o);
        }
      });
      let m = await interleave(host, drain, c, run, { onStep });
      if (m !== undefined) return m;
      await host.settle();
      m = onStep() ?? handles.check();
      if (m !== undefined) return m;
      const store = cur.stores[model.which];
      const exp = !model.on ? '' : model.off ? `${model.which}.${model.sel}=` : `${model.which}.${model.sel}=${store[model.sel]()};`;
      if (!container.textContent.startsWith(exp) || (exp === '' && container.textContent !== '')) return `the host is idle and the document shows "${container.textContent}", expected "${exp}"`;
      if (flavour !== 'silent') {
        for (const [i, s] of cur.stores.entries()) {
          const e = model.on && !model.off && model.which === i ? 1 : 0;
          if (s.subs.length !== e) return `store ${i} has ${s.subs.length} subscribers, expected ${e}`;
        }
      }
      root.unmount({ flushSync: true });
      await host.settle();
      if (flavour !== 'silent' && cur.stores.some((s) => s.subs.length > 0)) return 'a subscription is left after unmounting the root';
      cur.stores[0].set(999);
      cur.stores[1].set(999);
      await host.settle();
      if (container.textContent !== '') return `after unmounting the document shows ${container.textContent}`;
      ctx.outcome(`a${history}`);
      ctx.sample([flavour, ops, c.choices, history]);
    }
    await ctx.exploreSpace('stores', (function* () {
      const al = [['s0'], ['s1'], ['z0'], ['b0']];
      for (const op of ['R', 'T', 'W', 'G']) for (const l of op === 'R' ? ['bg'] : T ? ['sync', 'bg', 't0'] : ['sync', 'bg']) al.push([op, l]);
      for (const f of ['plain', 'eager', 'silent']) for (let k = 1; k <= (T ? 4 : 3); k++) {
        if (f !== 'plain' && k > (T ? 3 : 2)) continue;
        for (const w of words(al.length, k)) {
          const ops = w.map((i) => al[i]);
          if (!ops.some(([o]) => 'szb'.includes(o[0]))) continue;
          yield [f, ops];
        }
      }
      // subscriptions that are switched off and on, selectors that change less often than the store
      const al2 = [['s0'], ['b0']];
      for (const op of ['C', 'N', 'T']) for (const l of ['sync', 'bg']) al2.push([op, l]);
      for (const w of [['s0', 'C', 's0'], ['s0', 's0', 'C', 's0'], ['s0', 'C', 's0', 'C', 's0']]) for (const l of ['ub', 't0', 'uv']) for (const sel of ['plain', 'cap']) yield ['plain', w.map((op) => (op === 'C' ? [op, l] : [op])), sel];
      for (const sel of ['plain', 'cap']) for (let k = 2; k <= (T ? 5 : 4); k++) for (const w of words(al2.length, k)) if (w.some((i) => i > 1 && i < 6)) yield ['plain', w.map((i) => al2[i]), sel];
    })(), stores);
    // Changes at every point of the life of the component.
    const Early = createComponent(function Early({ at }) {
      const v = this.use(SyncExternalStore(cur.store.subscribe, cur.store.plain));
      const bump = () => {
        if (cur.left-- > 0) cur.store.set(cur.store.value + 1);
      };
      if (at === 'render') bump();
      this.useEffect(() => {
        if (at === 'effect') bump();
        if (at === 'cleanup') return bump;
      });
      return html`<b>${Probe({ at })}</b><p>${v}</p>`;
    });
    const Probe = createComponent(function Probe({ at }) {
      const bump = () => {
        if (cur.left-- > 0) cur.store.set(cur.store.value + 1);
      };
      if (at === 'child-render') bump();
      this.useEffect(() => {
        if (at === 'child-effect') bump();
      });
      return null;
    }, { arePropsEqual: () => false });
    await ctx.exploreSpace('moments', (function* () {
      for (const eager of [false, true]) for (const at of ['none', 'render', 'effect', 'cleanup', 'child-render', 'child-effect']) for (const left of [1, 2, 3]) for (const lane of ['sync', 'bg', 't0', 'h']) for (const again of ['', 'sync', 'bg']) yield [eager, at, left, lane, again];
    })(), async ([eager, at, left, lane, again], c) => {
      host.reset('scheduler');
      cur = { store: new Store(eager, false), left, problem: undefined };
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      const sys = { handler: () => (commit) => new Promise((resolve) => host.add('handler', () => { commit(); resolve(); })) };
      const ops = [() => root.render(Early({ at }), LANES[lane](sys))];
      if (again !== '') ops.push(() => root.render(Early({ at }), LANES[again](sys)));
      ops.push(() => cur.store.set(cur.store.value + 10));
      const m = await interleave(host, drain, c, ops, { onStep: () => cur.problem });
      if (m !== undefined) return m;
      await host.settle();
      if (container.textContent !== String(cur.store.value)) return `the document shows ${container.textContent}, the snapshot is ${cur.store.value}`;
      if (cur.store.subs.length !== 1) return `there are ${cur.store.subs.length} subscriptions`;
      ctx.outcome(`m${at}${container.textContent}`);
    });

    // ---- (b) deferred values (an update may be committed together with a synchronous one, so deferral is not demanded next to one)
    const OPTIONS = { none: {}, initial: { initialValue: 'i' }, lazy: { initialValue: () => 'i' }, fn: {}, ub: { priority: 'user-blocking' }, delay: { delay: 50 } };
    const Deferred = createComponent(function Deferred({ v, opt }) {
      const d = this.use(opt === 'none' ? DeferredValue(v) : DeferredValue(v, OPTIONS[opt]));
      const [, set] = this.useState(0);
      cur.setOwn = set;
      return html`<p>${v},${d}</p>`;
    });
    const Source = createComponent(function Source({ opt }) {
      const [v, set] = this.useState('0');
      cur.set = set;
      return Deferred({ v, opt });
    });
    function* deferredPlans(from, to) {
      const al = [];
      for (const op of ['v', 'o']) for (const l of op === 'v' ? (T ? ['sync', 'bg', 'ub', 't0', 't24'] : ['sync', 'bg', 't0']) : ['sync', 'bg']) al.push([op, l]);
      for (const opt of Object.keys(OPTIONS)) for (let k = from; k <= to; k++) for (const w of words(al.length, k)) yield [opt, w.map((i) => al[i])];
    }
    async function deferred([opt, plan], c) {
      host.reset('scheduler');
      cur = {};
      const { container } = start(Source({ opt }));
      let n = 0;
      let history = '';
      let last = [-1, -2];
      const syncOwn = plan.some(([op, l]) => op === 'o' && l === 'sync');
      const index = (s) => (s === 'i' ? -1 : Number(s));
      const onStep = () => {
        const [v, d] = container.textContent.split(',').map(index);
        history += container.textContent + '>';
        if (d > v) return `the deferred value ${d} is shown before its value (${v})`;
        if (d < last[1] || v < last[0]) return `shown (${last}) and then (${[v, d]})`;
        if (v > last[0] && d === v && !syncOwn && !(last[0] === -1 && !('initialValue' in OPTIONS[opt]))) return `the value ${v} was not deferred`;
        if (last[0] === -1 && 'initialValue' in OPTIONS[opt] && d !== -1) return `the initial value is not shown first (${container.textContent})`;
        last = [v, d];
      };
      await drain();
      let m = onStep();
      if (m !== undefined) return m;
      const ops = plan.map(([op, l]) => () => {
        if (op === 'v') cur.set(String(++n), LANES[l]({}));
        else cur.setOwn((x) => x + 1, LANES[l]({}));
      });
      m = await interleave(host, drain, c, ops, { onStep });
      if (m !== undefined) return m;
      await host.settle();
      m = onStep();
      if (m !== undefined) return m;
      if (container.textContent !== `${n},${n}`) return `finally the document shows ${container.textContent}, the latest value is ${n}`;
      ctx.outcome(`b${history}`);
      ctx.sample([opt, plan, c.choices, history]);
    }
    await ctx.exploreSpace('deferred', deferredPlans(0, 2), deferred);
    await ctx.exploreSpace('deferred-long', deferredPlans(3, 3), deferred, { bound: T ? 4 : 2 });

    // ---- (c) transitions
    const Trans = createComponent(function Trans() {
      const [pending, begin] = this.use(Transition());
      const [s, set] = this.useState('');
      cur.begin = begin;
      cur.set = set;
      return html`<p>${String(pending)},${s}</p>`;
    });
    const KINDS = ['sync', 'none', 'async', 'late', 'reject', 'throw', 'two'];
    const turn = () => new Promise((resolve) => setImmediate(resolve));
    async function transitions(plan, c) {
      host.reset('scheduler');
      // Nobody handles a promise the library made of a rejected one.
      const rejecting = plan.some(([kind]) => kind === 'reject');
      if (rejecting) await turn();
      const unhandled = dom.unhandled.length;
      cur = { problem: undefined };
      const { container, root } = start(Trans({}));
      await drain();
      let history = '';
      const open = []; // {ch, settled, needs, shownPending}
      let gone = false;
      const onStep = () => {
        if (cur.problem !== undefined) return cur.problem;
        history += container.textContent + '>';
        if (gone || container.textContent === '') return;
        const [pending, s] = container.textContent.split(',');
        const live = open.filter((t) => !t.settled || ![...t.needs].every((ch) => s.includes(ch)));
        const flushing = host.tasks.some((t) => t.kind === 'raf');
        if (pending === 'true') for (const t of live) t.shownPending = true;
        else {
          const bad = live.find((t) => t.shownPending || !flushing);
          if (bad !== undefined) return `transition ${bad.ch} is not shown as pending although its work ${bad.settled ? `is not shown ("${s}")` : 'has not settled'}`;
        }
      };
      const ops = plan.map(([kind, lane], i) => () => {
        const ch = 'abcdefgh'[i];
        if (kind === 'U') {
          gone = true;
          root.unmount(LANES[lane]({}));
          return;
        }
        if (kind === 'R') {
          cur.set((s) => s + ch, LANES[lane]({}));
          return;
        }
        const rec = { ch, settled: true, needs: '', shownPending: false };
        const set = cur.set;
        let given;
        const wait = () => new Promise((resolve) => host.add('work', resolve));
        const action = (t) => {
          if (typeof t !== 'number') cur.problem ??= `the action got ${t}`;
          const add = (x) => {
            rec.needs += x;
            set((s) => s + x, { transition: t });
          };
          switch (kind) {
            case 'sync':
              add(ch);
              return (given = { ch });
            case 'two':
              add(ch);
              add(ch.toUpperCase());
              return;
            case 'none':
              return (given = i);
            case 'throw':
              add(ch);
              throw (given = new Error('work'));
            case 'async':
              rec.settled = false;
              return (given = wait().then(() => add(ch)).then(() => {
                rec.settled = true;
                return 'done';
              }));
            case 'late':
              rec.settled = false;
              add(ch);
              return (given = wait().then(() => {
                rec.settled = true;
              }));
            case 'reject':
              rec.settled = false;
              add(ch);
              return (given = wait().then(() => {
                rec.settled = true;
                throw new Error('rejected');
              }));
          }
        };
        open.push(rec);
        let got;
        try {
          got = cur.begin(action);
          if (kind === 'throw') cur.problem ??= 'starting a transition swallowed the error its work threw';
        } catch (e) {
          got = e;
          if (kind !== 'throw') throw e;
        }
        got?.catch?.(() => {});
        if (got !== given) cur.problem ??= `starting a ${kind} transition returned ${got}`;
      });
      let m = await interleave(host, drain, c, ops, { onStep });
      if (m !== undefined) return m;
      await host.settle();
      m = onStep();
      if (m !== undefined) return m;
      if (rejecting) {
        await turn();
        if (dom.unhandled.length !== unhandled) return `a rejection handled by the application is reported as unhandled: ${dom.unhandled.at(-1)}`;
      }
      if (gone) {
        if (container.textContent !== '') return `after unmounting the document shows ${container.textContent}`;
      } else if (container.textContent.split(',')[0] !== 'false') return `everything has settled and the transition is still pending (${container.textContent})`;
      ctx.outcome(`c${history}`);
      ctx.sample([plan, c.choices, history]);
    }
    function* transPlans(from, to) {
      const al = KINDS.map((k) => [k]);
      for (const l of T ? ['sync', 'bg', 't0'] : ['sync', 'bg']) al.push(['R', l]);
      al.push(['U', 'sync'], ['U', 'bg']);
      for (let k = from; k <= to; k++) for (const w of words(al.length, k)) {
        const p = w.map((i) => al[i]);
        if (p.some(([k], i) => k === 'U' && i !== p.length - 1) || !p.some(([k]) => KINDS.includes(k))) continue;
        yield p;
      }
    }
    await ctx.exploreSpace('transitions', transPlans(1, 2), transitions);
    await ctx.exploreSpace('transitions-long', transPlans(3, 3), transitions, { bound: T ? 4 : 2 });

    // ---- (d) effect events
    const Ev = createComponent(function Ev({ v, bad }) {
      const [s, set] = this.useState('');
      cur.set = set;
      const ev = this.use(EffectEvent(function (...args) {
        return [`${v},${s}`, this, args];
      }));
      cur.events.push(ev);
      this.useEffect(() => {
        const r = ev.call(cur, 'x');
        if (r[0] !== `${v},${s}`) cur.problem ??= `called in a later effect, the event sees ${r[0]}, committed is ${v},${s}`;
        if (r[1] !== cur || r[2].length !== 1 || r[2][0] !== 'x') cur.problem ??= 'the receiver or arguments are not passed on';
      });
      if (bad) throw new Error('bad');
      return html`<p>${`${v},${s}`}</p>`;
    }, { arePropsEqual: (a, b) => a.v === b.v && a.bad === b.bad });
    await ctx.exploreSpace('events', (function* () {
      const al = [];
      for (const l of T ? ['sync', 'bg', 't0', 'ub'] : ['sync', 'bg', 't0']) al.push(['S', l]);
      al.push(['R', 'sync'], ['R', 'bg'], ['X', 'sync'], ['X', 'bg']);
      for (let k = 1; k <= (T ? 4 : 3); k++) for (const w of words(al.length, k)) {
        const p = w.map((i) => al[i]);
        yield p;
      }
    })(), async (plan, c) => {
      host.reset('scheduler');
      cur = { events: [], problem: undefined };
      const { container, root } = start(Ev({ v: 0 }));
      await drain();
      let history = '';
      let v = 0;
      const onStep = () => {
        if (cur.problem !== undefined) return cur.problem;
        const shown = container.textContent;
        history += shown + '>';
        const me = {};
        for (const [i, ev] of cur.events.entries()) {
          const [got, self, args] = ev.call(me, 1, 'two');
          if (got !== shown) return `the event of render ${i} sees ${got} while ${shown} is committed`;
          if (self !== me || args.length !== 2 || args[0] !== 1 || args[1] !== 'two') return 'the receiver or arguments are not passed on';
        }
      };
      let m = onStep();
      if (m !== undefined) return m;
      const ops = plan.map(([op, l], i) => () => {
        const o = LANES[l]({});
        if (op === 'S') cur.set((s) => s + 'abcdef'[i], o);
        else root.render(Ev({ v: ++v, bad: op === 'X' }), o).finished.catch(() => {});
      });
      m = await interleave(host, drain, c, ops, { onStep });
      if (m !== undefined) return m;
      await host.settle();
      m = onStep();
      if (m !== undefined) return m;
      ctx.outcome(`d${history}`);
      ctx.sample([plan, c.choices, history]);
    });

    // ---- (e) imperative handles
    const Handle = createComponent(function Handle({ id, refs, dep, mode }) {
      const ref = refs === undefined ? undefined : refs === null ? null : cur.refs[refs];
      this.use(ImperativeHandle(ref, () => {
        const h = { id, dep, n: ++cur.n };
        cur.made.push(h);
        return h;
      }, mode === 'none' ? undefined : [dep]));
      const [, set] = this.useState(0);
      cur.rerender[id] = () => set((x) => x + 1, { flushSync: true });
      return html`<i>${id}</i>`;
    }, { arePropsEqual: (a, b) => a.refs === b.refs && a.dep === b.dep });
    // refs: 0, 1 reference objects, 2 a callback, 3 a callback with a cleanup
    const HOPS = ['g0', 'g1', 'g2', 'g3', 'x', 'o', 'd', 'tA', 'tB', 'rA', 'rB', 'm'];
    await ctx.space('handles', (function* () {
      for (const mode of ['deps', 'none']) for (let k = 1; k <= (T ? 5 : 4); k++) for (const w of words(HOPS.length, k)) yield [mode, w.map((i) => HOPS[i])];
    })(), async ([mode, ops]) => {
      host.reset('scheduler');
      const calls = [];
      cur = { n: 0, made: [], rerender: {}, refs: [new Ref(null), new Ref(null), (h) => { calls.push(['set', h]); }, (h) => { calls.push(['set', h]); return () => calls.push(['unset', h]); }] };
      // who[id]: the reference given to the component
      const st = { order: ['A', 'B'], who: { A: 0, B: undefined }, dep: 0 };
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      const view = () => st.order.map((id) => Handle({ id, refs: st.who[id], dep: st.dep, mode }).withKey(id));
      let owner = {}; // reference -> [id, dep]
      const handles = {}; // reference -> handle shown
      let live = [];
      const step = async (rerendered) => {
        calls.length = 0;
        cur.made.length = 0;
        if (rerendered === undefined) root.render(view(), { flushSync: true });
        else cur.rerender[rerendered]();
        await host.settle();
        const next = {};
        for (const id of st.order) if (st.who[id] != null) next[st.who[id]] = [id, st.dep, live.includes(id)];
        const wantCalls = [];
        for (let r = 0; r < 4; r++) {
          const a = owner[r];
          const b = next[r];
          // A component that is rendered anew hands out a new handle if it has no dependencies.
          const always = mode === 'none' && (rerendered === undefined ? a !== undefined && b !== undefined && (a[0] !== b[0] || a[1] !== b[1]) : b?.[0] === rerendered);
          const changed = b !== undefined && (a === undefined || a[0] !== b[0] || a[1] !== b[1] || !b[2] || always);
          if (r < 2) {
            const now = cur.refs[r].current;
            if (b === undefined ? now !== null : now === null || now.id !== b[0]) return `reference ${r} is ${JSON.stringify(now)}, expected the handle of ${b?.[0] ?? 'nobody'}`;
            if (b !== undefined && now.dep !== b[1]) return `reference ${r} has the handle for dependency ${now.dep}, it is now ${b[1]}`;
            if (b !== undefined && !changed && now !== handles[r]) return `the handle of ${b[0]} was renewed although its dependencies are unchanged`;
            if (b !== undefined && changed && now === handles[r]) return `the handle of ${b[0]} was not renewed`;
            handles[r] = now;
          } else {
            const sets = calls.filter(([k, h]) => k === 'set' && cur.made.includes(h));
            const forMe = sets.filter(([, h]) => h.id === b?.[0]);
            if (changed) wantCalls.push(b[0]);
            if (r === 3) {
              // each earlier handle is cleaned up exactly once
              if (a !== undefined && (b === undefined || changed)) {
                if (calls.filter(([k, h]) => k === 'unset' && h === handles[r]).length !== 1) return 'the cleanup of a reference callback was not called once';
              } else if (calls.some(([k]) => k === 'unset')) return 'the cleanup of a reference callback was called although nothing changed';
            }
            if (b !== undefined && changed) {
              if (forMe.length !== 1) return `the reference callback was called ${forMe.length} times with the handle of ${b[0]}, expected once`;
              handles[r] = forMe[0][1];
            } else if (forMe.length !== 0) return `the reference callback was called again for ${b[0]}`;
          }
        }
        if (calls.filter(([k]) => k === 'set').length !== wantCalls.length) return `reference callbacks were called ${JSON.stringify(calls)}, expected for ${wantCalls}`;
        owner = next;
        live = [...st.order];
      };
      let m = await step();
      if (m !== undefined) return m;
      for (const op of ops) {
        let rr;
        if (op[0] === 'g') st.who.A !== undefined ? (st.who.A = Number(op[1])) : (st.who.B = Number(op[1]));
        else if (op === 'x') [st.who.A, st.who.B] = [st.who.B, st.who.A];
        else if (op === 'o') st.order.reverse();
        else if (op === 'd') st.dep++;
        else if (op === 'm') st.who.A !== undefined ? (st.who.A = null) : (st.who.B = null);
        else if (op[0] === 't') st.order.includes(op[1]) ? st.order.splice(st.order.indexOf(op[1]), 1) : st.order.push(op[1]);
        else {
          rr = op[1];
          if (!st.order.includes(rr)) continue;
        }
        m = await step(rr);
        if (m !== undefined) return `after ${op}: ${m}`;
      }
      root.unmount({ flushSync: true });
      await host.settle();
      if (cur.refs[0].current !== null || cur.refs[1].current !== null) return 'a reference still has a handle after unmounting';
      ctx.count('transitions', ops.length);
      ctx.outcome(`e${JSON.stringify(owner)}${cur.n}`);
    });

    // ---- (f) values of every kind are handed through as they are
    const { values: V, log: touched } = exotic(B);
    const isFn = (x) => typeof V[x] === 'function';
    const SLOTS = ['deferred', 'deferred-initial', 'store', 'transition', 'event', 'event-result', 'handle', 'handle-callback'];
    await ctx.space('values', (function* () {
      const names = Object.keys(V);
      for (const slot of SLOTS) for (const a of names) for (const b of names) {
        // A transition awaits its result, and a missing initial value is none.
        if (slot === 'transition' && (a === 'revoked' || b === 'revoked')) continue;
        if (slot === 'deferred-initial' && V[a] == null) continue;
        yield [slot, a, b];
      }
    })(), async ([slot, a, b]) => {
      host.reset('scheduler');
      touched.length = 0;
      let now = a;
      const seen = [];
      let set;
      const ref = new Ref(null);
      const given = [];
      let notify = () => {};
      const subscribe = (f) => {
        notify = f;
      };
      const snapshot = () => V[now];
      const onHandle = (h) => {
        given.push(h);
      };
      let event;
      let begin;
      const X = createComponent(function X() {
        const [, force] = this.useState(0);
        set = () => force((n) => n + 1, { flushSync: true });
        const v = V[now];
        switch (slot) {
          case 'deferred':
            seen.push(this.use(DeferredValue(v)));
            break;
          case 'deferred-initial':
            seen.push(this.use(DeferredValue(V[b], { initialValue: isFn(a) ? () => V[a] : V[a] })));
            break;
          case 'store':
            seen.push(this.use(SyncExternalStore(subscribe, snapshot)));
            break;
          case 'transition':
            [, begin] = this.use(Transition());
            break;
          case 'event':
            event = this.use(EffectEvent(function (...args) {
              seen.push(this, ...args);
            }));
            break;
          case 'event-result':
            event = this.use(EffectEvent(() => v));
            break;
          case 'handle':
            this.use(ImperativeHandle(ref, () => v, [now]));
            break;
          case 'handle-callback':
            this.use(ImperativeHandle(onHandle, () => v, [now]));
            break;
        }
        return html`<p></p>`;
      });
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      const errors = [];
      const watch = (h) => h?.finished.catch((e) => errors.push(e));
      watch(root.render(X({}), { flushSync: true }));
      await host.settle();
      const is = Object.is;
      if (slot === 'deferred-initial') {
        if (!is(seen[0], V[a]) || !is(seen.at(-1), V[b])) return 'the initial or the final value is another';
        if (!seen.every((x) => is(x, V[a]) || is(x, V[b]))) return 'another value is seen';
      } else for (const name of [a, b, b, a]) {
        const prev = now;
        now = name;
        const n = seen.length;
        const same = is(V[prev], V[name]);
        if (slot === 'store') notify();
        else watch(set());
        await host.settle();
        switch (slot) {
          case 'deferred':
            if (!is(seen[n], V[prev]) || !is(seen.at(-1), V[name])) return `step ${name}: the deferred value is another`;
            break;
          case 'store':
            if (!is(seen.at(-1), V[name])) return `step ${name}: the snapshot is another`;
            if (same !== (seen.length === n)) return `step ${name}: the component was ${same ? '' : 'not '}rendered`;
            break;
          case 'transition':
            if (!is(begin(() => V[name]), V[name])) return `step ${name}: the result is another`;
            await host.settle();
            break;
          case 'event':
            event.call(V[name], V[a], V[b]);
            if (!is(seen[n], V[name]) || !is(seen[n + 1], V[a]) || !is(seen[n + 2], V[b]) || seen.length !== n + 3) return `step ${name}: the event is called with something else`;
            break;
          case 'event-result':
            if (!is(event(), V[name])) return `step ${name}: the result is another`;
            break;
          case 'handle':
            if (!is(ref.current, V[name])) return `step ${name}: the handle is another`;
            break;
          case 'handle-callback':
            if (!is(given.at(-1), V[name])) return `step ${name}: the handle is another`;
            break;
        }
      }
      if (slot === 'transition' && touched.length > 0 && touched.every((x) => x === 'thenable awaited')) touched.length = 0;
      if (touched.length > 0) return touched[0];
      if (errors.length > 0) return `an update failed: ${errors[0]?.message}`;
      watch(root.unmount({ flushSync: true }));
      await host.settle();
      if (slot === 'handle' && ref.current !== null) return 'the reference has a handle after unmounting';
      if (errors.length > 0) return `unmounting failed: ${errors[0]?.message}`;
      ctx.outcome(`f${slot}${is(V[a], V[b])}${seen.length}`);
      ctx.count('transitions', 5);
    });
    ctx.count('states', ctx.distinctSet.size);
  },
};
