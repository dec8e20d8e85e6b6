// C21 The host adapter: requested callbacks and commits in every host environment, ranking of events.
import { Chooser, words } from '../lib/explore.mjs';

const RANK = { 'user-blocking': 0, 'user-visible': 1, background: 2 };
const CONTINUOUS = ['drag', 'dragenter', 'dragleave', 'dragover', 'mouseenter', 'mouseleave', 'mousemove', 'mouseout', 'mouseover', 'pointerenter', 'pointerleave', 'pointermove', 'pointerout', 'pointerover', 'scroll', 'touchmove', 'wheel'];

export default {
  id: 'C21',
  rule: 'an item is a host environment (scheduler, idle callbacks, visible frames or not) with a set of concurrent requests (priority, delay, outcome of the callback), under every order of the host callbacks with a virtual clock; or an event type, interface and readiness of the document with the (nested) scheduling inside its listeners; distinct outcomes are distinct runs',
  assumptions: ['host callbacks never run early, and each at most once', 'a host without scheduler ranks message channels before timers before idle callbacks', 'a hidden document runs timers but no frames'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot, html, createComponent } = B;
    const T = ctx.thorough;
    const adapter = new DOMAdapter(document);
    const defaults = new DOMAdapter();
    const ENVS = [];
    for (const mode of ['scheduler', 'fallback']) for (const idle of [true, false]) for (const frames of [true, false]) if (mode === 'fallback' || idle) ENVS.push({ mode, idle, frames });
    const setup = ({ mode, idle }) => host.reset(mode, { rafPairing: false, idle });

    // ---- requests
    const OUTCOMES = { void: () => undefined, throw: () => { throw new Error('T'); }, later: () => new Promise((r) => host.add('work', r)), fail: () => new Promise((_, r) => host.add('work', () => r(new Error('L')))) };
    async function requests([env, reqs], c) {
      setup(env);
      let now = 0;
      const log = [];
      const rec = reqs.map((r) => ({ ...r, runs: 0, settled: undefined, at: undefined, by: undefined }));
      let inside; // the kind of host callback that runs
      let problem;
      const issue = (r, i) => {
        r.asked = now;
        r.base = inside?.owed ?? 0;
        const cb = () => {
          r.runs++;
          r.ranAt = now;
          r.by = inside;
          log.push(`run${i}@${now}`);
          if (r.nested) {
            const j = rec.push({ ...r.nested, runs: 0 }) - 1;
            issue(rec[j], j);
          }
          return OUTCOMES[r.out]();
        };
        const a = r.who === 'd' ? defaults : adapter;
        const options = {};
        if (r.priority) options.priority = r.priority;
        if (r.delay !== undefined) options.delay = r.delay;
        const promise = r.kind === 'commit' ? a.requestCommit(cb) : Object.keys(options).length > 0 || r.empty ? a.requestCallback(cb, options) : a.requestCallback(cb);
        if (r.runs > 0) problem ??= `callback ${i} ran while it was requested`;
        r.early = r.runs;
        promise.then((v) => {
          if (r.settled !== undefined) problem ??= 'settled twice';
          r.settled = 'ok';
          if (r.runs === 0) problem ??= `the promise of ${i} resolved before the callback ran`;
          if (r.out !== 'void' && r.out !== 'later') problem ??= `the promise of ${i} resolved although the callback failed`;
          if (r.out === 'later' && !r.worked) problem ??= `the promise of ${i} resolved before the one the callback returned`;
        }, (e) => {
          r.settled = 'bad';
          if (e?.message !== { throw: 'T', fail: 'L' }[r.out]) problem ??= `the promise of ${i} rejected with ${e}`;
        });
      };
      rec.slice().forEach(issue);
      let steps = 0;
      const stamp = (creator) => {
        for (const t of host.tasks) {
          t.due ??= now + Math.max(0, t.delay ?? 0);
          // The delays asked for on the way to this host callback.
          t.owed ??= (creator?.owed ?? 0) + Math.max(0, t.delay ?? 0);
        }
      };
      stamp();
      await drain();
      if (rec.some((r) => r.runs > 0)) problem ??= 'a callback ran without a host callback';
      while (problem === undefined) {
        stamp();
        const options = host.tasks.filter((t) => t.kind !== 'raf' || env.frames);
        if (options.length === 0) break;
        if (++steps > 60) return 'livelock';
        const t = options[c.choose(options.length, 'host')];
        now = Math.max(now, t.due);
        inside = t;
        if (t.kind === 'work') for (const r of rec) if (r.out === 'later') r.worked = true;
        await host.run(t);
        stamp(t);
        inside = undefined;
      }
      if (problem !== undefined) return problem;
      for (const [i, r] of rec.entries()) {
        const name = `callback ${i} (${r.kind ?? ''} ${r.priority ?? '-'} ${r.delay ?? '-'} ${r.out})`;
        if (r.runs !== 1) return `${name} ran ${r.runs} times`;
        if (r.settled === undefined) return `the promise of ${name} did not settle`;
        if (r.ranAt < r.asked + (r.delay ?? 0)) return `${name} ran after ${r.ranAt - r.asked} ms`;
        if (r.by === undefined) return `${name} did not run in a host callback`;
        if (r.kind === 'commit') {
          if (r.by.kind !== 'raf' && r.by.kind !== 'timer') return `${name} ran in a ${r.by.kind}`;
          if (r.by.kind === 'timer' && r.ranAt - r.asked < 50) return `${name} did not wait for a frame (${r.ranAt - r.asked} ms)`;
          if (!env.frames && r.by.owed - r.base > 1000) return `${name} waits for ${r.by.owed - r.base} ms in a hidden document`;
          continue;
        }
        if (r.by.owed - r.base > (r.delay ?? 0) + 10) return `${name} was requested ${r.by.owed - r.base} ms later`;
        const p = r.priority ?? 'user-visible';
        if (env.mode === 'scheduler') {
          if (r.by.kind !== 'task' || (r.by.priority ?? 'user-visible') !== p) return `${name} ran in a ${r.by.kind} of priority ${r.by.priority}`;
        } else {
          const kinds = { 'user-blocking': r.delay ? ['message', 'timer'] : ['message'], 'user-visible': ['timer', 'message'], background: env.idle ? ['idle'] : ['timer'] }[p];
          if (!kinds.includes(r.by.kind)) return `${name} ran in a ${r.by.kind}`;
        }
      }
      ctx.outcome(`${JSON.stringify(env)}${log}`);
      ctx.sample([env, reqs, c.choices, log]);
    }
    const REQ = [];
    for (const priority of [undefined, 'user-blocking', 'user-visible', 'background']) for (const delay of [undefined, 0, 1, 50, 500]) REQ.push({ priority, delay, out: 'void' });
    for (const priority of ['user-blocking', 'user-visible', 'background']) for (const out of ['throw', 'later', 'fail']) REQ.push({ priority, out });
    REQ.push({ empty: true, out: 'void' }, { kind: 'commit', out: 'void' }, { kind: 'commit', out: 'throw' }, { kind: 'commit', out: 'void', nested: { kind: 'commit', out: 'void' } }, { kind: 'commit', out: 'void', nested: { priority: 'user-blocking', out: 'void' } }, { priority: 'background', out: 'void', nested: { priority: 'background', out: 'void' } }, { priority: 'user-blocking', who: 'd', out: 'void' });
    await ctx.exploreSpace('requests', (function* () {
      for (const env of ENVS) for (let k = 1; k <= 2; k++) for (const w of words(REQ.length, k)) yield [env, w.map((i) => REQ[i])];
      const few = REQ.filter((r) => (r.delay === undefined || r.delay === 50) && (r.out === 'void' || T));
      for (const env of ENVS) for (const w of words(few.length, 3)) if (T || (w[0] <= w[1] && w[1] <= w[2])) yield [env, w.map((i) => few[i])];
    })(), requests);

    // ---- ranking of events
    const names = new Set(CONTINUOUS);
    for (const o of [window, jsdomWindow, document, HTMLElement.prototype, Element.prototype, Document.prototype, jsdomWindow.HTMLBodyElement.prototype]) for (let p = o; p; p = Object.getPrototypeOf(p)) for (const k of Object.getOwnPropertyNames(p)) if (/^on[a-z]+$/.test(k)) names.add(k.slice(2));
    for (const n of ['click', 'focusin', 'focusout', 'touchstart', 'touchend', 'touchcancel', 'pointerdown', 'pointerup', 'gotpointercapture', 'beforeinput', 'compositionstart', 'compositionend', 'popstate', 'hashchange', 'message', 'custom', 'mouse', 'scrollend', 'Scroll', 'dragend', 'drop', 'DOMContentLoaded', 'load', 'toggle', '']) names.add(n);
    const IFACES = ['Event', 'CustomEvent', 'MouseEvent', 'UIEvent'];
    const rank = (type) => (CONTINUOUS.includes(type) ? 'user-visible' : 'user-blocking');
    const withState = async (state, body) => {
      Object.defineProperty(document, 'readyState', { value: state, configurable: true });
      try {
        return await body();
      } finally {
        delete document.readyState;
      }
    };
    await ctx.space('events', (function* () {
      for (const type of names) for (const iface of IFACES) for (const state of ['loading', 'interactive', 'complete']) yield [type, iface, state];
    })(), ([type, iface, state]) => withState(state, () => {
      host.reset('scheduler');
      const idleRank = state === 'complete' ? 'background' : 'user-blocking';
      const got = [];
      const el = document.createElement('div');
      const inner = document.createElement('i');
      el.append(inner);
      document.body.append(el);
      const ask = () => got.push(adapter.getTaskPriority(), defaults.getTaskPriority());
      if (type !== '') {
        el.addEventListener(type, ask, true);
        el.addEventListener(type, () => {
          inner.dispatchEvent(new Event('custom'));
          ask();
          inner.dispatchEvent(new Event('mousemove'));
          ask();
        });
      }
      const nested = [];
      if (type !== 'custom') inner.addEventListener('custom', () => nested.push(adapter.getTaskPriority()));
      if (type !== 'mousemove') inner.addEventListener('mousemove', () => nested.push(adapter.getTaskPriority()));
      if (adapter.getTaskPriority() !== idleRank) return `before the event: ${adapter.getTaskPriority()}`;
      if (type !== '') {
        el.dispatchEvent(new jsdomWindow[iface](type, { bubbles: false }));
        if (got.length < 6 || got.some((g) => g !== rank(type))) return `inside of a ${type} event: ${got}`;
        if (nested.some((n, i) => n !== (type === 'custom' ? 'user-visible' : ['user-blocking', 'user-visible'][i % 2]))) return `nested events: ${nested}`;
      }
      if (adapter.getTaskPriority() !== idleRank) return `after the event: ${adapter.getTaskPriority()}`;
      el.remove();
      ctx.outcome(`${type}${state}${got}`);
    }));

    // ---- events of a document of another window, whose events are of its own kind
    const frame = document.createElement('iframe');
    document.body.append(frame);
    const frameWindow = frame.contentWindow;
    const frameDocument = frame.contentDocument;
    const frameAdapter = new DOMAdapter(frameDocument);
    await ctx.space('frames', (function* () {
      for (const type of names) if (type !== '') for (const iface of IFACES) for (const state of ['loading', 'interactive', 'complete']) yield [type, iface, state];
    })(), ([type, iface, state]) => {
      Object.defineProperty(frameDocument, 'readyState', { value: state, configurable: true });
      host.reset('scheduler');
      const idleRank = state === 'complete' ? 'background' : 'user-blocking';
      const got = [];
      const el = frameDocument.createElement('div');
      frameDocument.body.append(el);
      el.addEventListener(type, () => got.push(frameAdapter.getTaskPriority()));
      el.dispatchEvent(new frameWindow[iface](type));
      el.dispatchEvent(new jsdomWindow[iface](type));
      el.remove();
      if (got.length !== 2 || got.some((g) => g !== rank(type))) return `inside of a ${type} event of a frame: ${got}`;
      if (frameAdapter.getTaskPriority() !== idleRank) return `outside of events of a frame: ${frameAdapter.getTaskPriority()}`;
      ctx.outcome(`frame${type}${state}${got}`);
    });
    frame.remove();

    // ---- updates: the request made for each of a sequence of updates
    const Comp = createComponent(function Comp({ id }) {
      const [s, set] = this.useState('');
      world.set[id] = set;
      world.shown[id] = s;
      return html`<p @mousemove=${(e) => world.fire(e)} @click=${(e) => world.fire(e)} @keydown=${(e) => world.fire(e)} @scroll=${(e) => world.fire(e)}></p>`;
    });
    let world;
    const CONTEXTS = ['none', 'click', 'mousemove', 'scroll', 'keydown', 'after', 'loading', 'nested'];
    const OPTS = { none: {}, un: { priority: undefined, delay: undefined, transition: undefined, flushSync: undefined }, ub: { priority: 'user-blocking' }, uv: { priority: 'user-visible' }, bg: { priority: 'background' }, t: { transition: 0 }, d: { delay: 50 }, dl: { delay: 500 }, ubd: { priority: 'user-blocking', delay: 50 }, ubt: { priority: 'user-blocking', transition: 1 }, h: { handler: (commit) => commit() } };
    const ctxRank = { none: 'background', click: 'user-blocking', mousemove: 'user-visible', scroll: 'user-visible', keydown: 'user-blocking', after: 'background', loading: 'user-blocking', nested: 'user-blocking' };
    // Without a priority, transitions and delayed updates are background work, updates with a handler urgent.
    const optRank = (o, where) => o.priority ?? (o.handler ? 'user-blocking' : o.transition !== undefined || o.delay !== undefined ? 'background' : ctxRank[where]);
    await ctx.space('updates', (function* () {
      const al = [];
      for (const where of CONTEXTS) al.push([where, 'none']);
      for (const o of Object.keys(OPTS)) if (o !== 'none') for (const where of T ? ['none', 'click', 'mousemove'] : ['none', 'click']) al.push([where, o]);
      for (const env of ENVS) if (env.frames) for (let k = 1; k <= (T ? 3 : 2); k++) for (const w of words(al.length, k)) yield [env, w.map((i) => al[i])];
    })(), async ([env, seq]) => {
      setup(env);
      world = { set: {}, shown: {} };
      const container = document.createElement('div');
      document.body.append(container);
      try {
        const root = new DOMRoot(container, new Runtime(adapter));
        root.render(seq.map((_, i) => Comp({ id: i }).withKey(i)), { flushSync: true });
        await drain();
        host.tasks.length = 0;
        const ups = seq.map(([where, o], i) => ({ i, where, o: OPTS[o], rank: RANK[optRank(OPTS[o], where)] }));
        let settled = 0;
        for (const u of ups) {
          const p = container.children[u.i];
          const go = () => world.set[u.i]('x', u.o).finished.then(() => settled++);
          const before = host.tasks.length;
          if (u.where === 'none') go();
          else if (u.where === 'loading') await withState('interactive', () => void go());
          else if (u.where === 'after') {
            world.fire = async () => {
              await null;
              await drain();
              go();
            };
            p.dispatchEvent(new jsdomWindow.MouseEvent('click'));
            await drain();
            await drain();
          } else if (u.where === 'nested') {
            world.fire = (e) => (e.type === 'mousemove' ? p.dispatchEvent(new Event('click')) : go());
            p.dispatchEvent(new Event('mousemove'));
          } else {
            world.fire = go;
            p.dispatchEvent(new Event(u.where));
          }
          await drain();
          const made = host.tasks.slice(before);
          if (made.length > 1) return `an update made ${made.length} requests`;
          u.made = made[0];
        }
        // Run the host callbacks rank by rank: updates of a rank are rendered after all callbacks of that rank or a better one.
        let now = 0;
        const rankOf = (t) => (t.kind === 'task' ? RANK[t.priority ?? 'user-visible'] : { message: 0, timer: env.idle ? 1 : t.delay === 1 ? 2 : 1, idle: 2 }[t.kind]);
        for (let r = 0; r < 3; r++) {
          for (;;) {
            const t = host.tasks.find((t) => t.kind === 'raf') ?? host.tasks.filter((t) => t.kind !== 'timer' || t.delay < 50).find((t) => rankOf(t) <= r && !(t.delay >= 50));
            if (t === undefined) break;
            await host.run(t);
          }
          const bad = ups.find((u) => u.rank <= r && !(u.o.delay >= 50) && world.shown[u.i] !== 'x');
          if (bad !== undefined) return `update ${bad.i} (${bad.where}, ${JSON.stringify(bad.o)}) is not rendered after all host callbacks of its rank ${r}`;
          const early = ups.find((u) => u.rank > r && world.shown[u.i] === 'x' && ups.every((v) => v.rank >= u.rank));
          if (early !== undefined) return `update ${early.i} (${early.where}, ${JSON.stringify(early.o)}) was rendered in a callback of rank ${r}`;
        }
        const wrong = ups.find((u) => u.o.delay >= 50 && !u.o.priority && world.shown[u.i] === 'x' && ups.every((v) => v.o.delay >= 50));
        if (wrong !== undefined) return `update ${wrong.i} was rendered before its delay`;
        await host.settle();
        host.rafPairing = true;
        await host.settle();
        if (settled !== seq.length || seq.some((_, i) => world.shown[i] !== 'x')) return `updates shown ${JSON.stringify(world.shown)}, settled ${settled}`;
        ctx.count('transitions', seq.length);
        ctx.outcome(`${JSON.stringify(env)}${ups.map((u) => `${u.made?.kind}${u.made?.priority}${u.made?.delay}`)}`);
      } finally {
        container.remove();
      }
    });
    ctx.count('states', ctx.distinctSet.size);
  },
};
