// C11 Navigation adapters and the SyncNavigation hook.
import { words } from '../lib/explore.mjs';
import { interleave } from '../lib/concurrency.mjs';

export default {
  id: 'C11',
  rule: 'items are (a) an adapter and a combination of navigation event attributes, (b) a history of listener registrations and removals and navigations, (c) a history of overlapping in-memory navigations with every order of completion, (d) a history of navigations, mounts, unmounts and re-renders of an application, with every interleaving with host callbacks; distinct outcomes are distinct reports and documents',
  assumptions: ['a download request that changes only the fragment is not judged for hash routing', 'descendants are rendered whenever their provider is'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot, html, createComponent, BrowserAdapter, HashAdapter, InMemoryAdapter, SyncNavigation, NavigationContext } = B;
    const T = ctx.thorough;
    const W = jsdomWindow;

    // A minimal Navigation API: same-document navigations commit at once and
    // finish when every intercept handler has.
    class FakeNavigation extends W.EventTarget {
      constructor(base) {
        super();
        this.url = new URL(base);
        this.entry = null;
        this.location = new Proxy({}, { get: (_, k) => this.url[k] });
      }
      get currentEntry() {
        return this.entry;
      }
      fire(url, attrs = {}, state = undefined) {
        const handlers = [];
        const event = new W.Event('navigate', { cancelable: true });
        const info = { intercepts: [] };
        Object.assign(event, {
          canIntercept: true, downloadRequest: null, hashChange: false, navigationType: 'push',
          destination: { url, sameDocument: true, id: '', key: '', index: 0, getState: () => state },
          intercept: (options) => {
            info.intercepts.push(options);
            if (options?.handler) handlers.push(options.handler);
          },
          scroll: () => {},
          ...attrs,
          ...(attrs.destination ? { destination: { url, id: '', key: '', index: 0, getState: () => state, ...attrs.destination } } : {}),
        });
        this.dispatchEvent(event);
        info.event = event;
        info.handlers = handlers;
        return info;
      }
      navigate(url, options = {}) {
        const to = new URL(url, this.url);
        const info = this.fire(to.href, { hashChange: to.pathname === this.url.pathname && to.search === this.url.search && to.hash !== this.url.hash, navigationType: options.history === 'replace' ? 'replace' : 'push' }, options.state);
        this.calls ??= [];
        this.calls.push([url, options]);
        this.url = to;
        this.entry = { getState: () => options.state };
        const finished = Promise.all(info.handlers.map((h) => h())).then(() => this.entry);
        finished.catch(() => {});
        return { committed: Promise.resolve(this.entry), finished };
      }
    }
    const ADAPTERS = { browser: BrowserAdapter, hash: HashAdapter };

    // ---- (a) event attributes
    const URLS = ['http://localhost:3000/', 'http://localhost:3000/a/b', 'http://localhost:3000/a?q=1', 'http://localhost:3000/a?q#/x/y?z', 'http://localhost:3000/#', 'http://localhost:3000/#/a', 'http://localhost:3000/#a#b', 'http://localhost:3000/%E3%81%82#%20', 'http://other.example/x#y'];
    await ctx.space('attributes', (function* () {
      for (const a of ['browser', 'hash']) for (const url of URLS) for (const type of ['push', 'replace', 'reload', 'traverse']) for (const ci of [true, false]) for (const sd of [true, false]) for (const dl of [null, '', 'f.zip']) for (const hc of [true, false]) for (const st of [0, 1]) yield [a, url, type, ci, sd, dl, hc, st];
    })(), ([a, url, type, canIntercept, sameDocument, downloadRequest, hashChange, st]) => {
      if (a === 'hash' && hashChange && downloadRequest !== null) return;
      const nav = new FakeNavigation('http://localhost:3000/');
      const adapter = new ADAPTERS[a]({ navigation: nav, location: nav.location });
      const state = st === 0 ? undefined : { x: 1 };
      const log = [];
      const stop = adapter.listen((scene, interceptor) => log.push([scene, interceptor]));
      const info = nav.fire(url, { canIntercept, downloadRequest, hashChange, navigationType: type, destination: { sameDocument } }, state);
      stop();
      nav.fire(url, { canIntercept, downloadRequest, hashChange, navigationType: type, destination: { sameDocument } }, state);
      const want = canIntercept && sameDocument && downloadRequest === null && (a === 'hash' ? hashChange : !hashChange);
      if (log.length !== (want ? 1 : 0)) return `the listener was called ${log.length} times, expected ${want ? 1 : 0}`;
      const u = new URL(url);
      const expUrl = a === 'hash' ? u.hash.slice(1) : url.slice(u.origin.length);
      if (want) {
        const [scene, interceptor] = log[0];
        // A trailing "#" is no fragment in either form.
        if (scene.url !== expUrl && scene.url !== expUrl.replace(/#$/, '')) return `the scene has the URL ${scene.url}, expected ${expUrl}`;
        if (scene.state !== state || scene.navigationType !== type) return `the scene has state ${scene.state} and type ${scene.navigationType}`;
        let called = 0;
        interceptor.intercept({ handler: () => called++ });
        if (info.intercepts.length !== 1 || info.handlers.length !== 1) return 'the interceptor does not intercept the event';
      }
      nav.url = u;
      const cur = adapter.getCurrentURL();
      if (cur !== expUrl && cur !== expUrl.replace(/#$/, '')) return `the current URL is ${cur}, expected ${expUrl}`;
      if (adapter.getCurrentState() !== undefined) return 'there is a state without an entry';
      nav.entry = { getState: () => state };
      if (adapter.getCurrentState() !== state) return `the current state is ${adapter.getCurrentState()}`;
      ctx.count('transitions', 2);
      ctx.outcome(`${a}${want}${cur}`);
    });
    await ctx.space('navigate', (function* () {
      for (const a of ['browser', 'hash']) for (const url of ['/', '/a?b', 'x', '']) for (const outcome of ['resolve', 'reject', 'throw']) for (const o of [0, 1, 2]) for (const global of [false, true]) yield [a, url, outcome, o, global];
    })(), async ([a, url, outcome, o, global]) => {
      let settle;
      const calls = [];
      const finished = new Promise((res, rej) => (settle = { resolve: res, reject: rej }));
      finished.catch(() => {});
      const committed = Promise.resolve();
      const nav = {
        currentEntry: { getState: () => 's' },
        navigate: (...args) => {
          calls.push(args);
          if (outcome === 'throw') throw new Error('bad url');
          return { committed, finished };
        },
      };
      const location = { pathname: '/p', search: '?s', hash: '#h' };
      const saved = [globalThis.navigation, globalThis.location];
      let adapter;
      if (global) {
        globalThis.navigation = nav;
        globalThis.location = location;
        try {
          adapter = new ADAPTERS[a]();
        } finally {
          [globalThis.navigation, globalThis.location] = saved;
        }
      } else adapter = new ADAPTERS[a]({ navigation: nav, location });
      if (adapter.getCurrentURL() !== (a === 'hash' ? 'h' : '/p?s#h') || adapter.getCurrentState() !== 's') return `wrong current location ${adapter.getCurrentURL()}`;
      const options = [undefined, { state: { x: 1 }, history: 'push' }, { history: 'replace', info: 3 }][o];
      let got = 'pending';
      let promise;
      try {
        promise = adapter.navigate(url, options);
      } catch (e) {
        return `navigate throws ${e} instead of returning a promise`;
      }
      promise.then((v) => (got = `resolved ${v}`), (e) => (got = `rejected ${e.message}`));
      await drain();
      if (calls.length !== 1 || calls[0][0] !== (a === 'hash' ? `#${url}` : url) || calls[0][1] !== options) return `navigation.navigate was called with ${JSON.stringify(calls)}`;
      if (outcome === 'throw') return got === 'rejected bad url' ? undefined : `the promise is ${got}`;
      if (got !== 'pending') return `the promise is ${got} before the navigation has finished`;
      settle[outcome](outcome === 'reject' ? new Error('aborted') : nav.currentEntry);
      await drain();
      const exp = outcome === 'reject' ? 'rejected aborted' : 'resolved undefined';
      if (got !== exp) return `the promise is ${got}, expected ${exp}`;
      ctx.outcome(`nav${a}${got}`);
    });

    // ---- (b) listeners
    const LOPS = ['l0', 'l1', 'l0b', 'u0', 'u1', 'u0b', 'n'];
    await ctx.space('listeners', (function* () {
      for (const a of ['browser', 'hash', 'memory']) for (let k = 1; k <= (T ? 6 : 5); k++) for (const w of words(LOPS.length, k)) yield [a, w.map((i) => LOPS[i])];
    })(), async ([a, ops]) => {
      const nav = new FakeNavigation('http://localhost:3000/');
      const adapter = a === 'memory' ? new InMemoryAdapter('/', undefined) : new ADAPTERS[a]({ navigation: nav, location: nav.location });
      const counts = [0, 0];
      const fns = [() => counts[0]++, () => counts[1]++];
      const stops = {};
      const live = {};
      for (const [n, op] of [...ops, 'n'].entries()) {
        const key = op.slice(1);
        const f = Number(key[0]);
        if (op[0] === 'l') {
          if (live[key]) continue;
          stops[key] = adapter.listen(fns[f]);
          live[key] = true;
        } else if (op[0] === 'u') {
          stops[key]?.();
          live[key] = false;
        } else {
          counts[0] = counts[1] = 0;
          const done = adapter.navigate(`/${n}`);
          if (a === 'memory') await done;
          const exp = [(live['0'] ? 1 : 0) + (live['0b'] ? 1 : 0), live['1'] ? 1 : 0];
          if (counts[0] !== exp[0] || counts[1] !== exp[1]) return `navigation ${n} called the listeners ${counts} times, expected ${exp}`;
        }
      }
      ctx.count('transitions', ops.length);
      ctx.outcome(`l${a}${JSON.stringify(live)}`);
    });

    // Listeners that come and go while a navigation is being announced.
    await ctx.space('within', (function* () {
      const ACTS = ['', 'u0', 'u1', 'u2', 'l', 'u0u1', 'u1u2', 'u2l', 'u0u1u2'];
      for (const a of ['browser', 'hash', 'memory']) for (const w of words(ACTS.length, 3)) yield [a, w.map((i) => ACTS[i])];
    })(), async ([a, acts]) => {
      const nav = new FakeNavigation('http://localhost:3000/');
      const adapter = a === 'memory' ? new InMemoryAdapter('/', undefined) : new ADAPTERS[a]({ navigation: nav, location: nav.location });
      const stops = [];
      const live = [];
      let bad;
      let heard = [];
      const add = (act) => {
        const n = stops.length;
        live[n] = true;
        let done = false;
        stops[n] = adapter.listen(() => {
          if (!live[n]) bad ??= `listener ${n} was called after it had been removed`;
          heard[n] = (heard[n] ?? 0) + 1;
          if (done) return;
          done = true;
          for (const [, op, k] of act.matchAll(/([ul])(\d?)/g)) {
            if (op === 'l') add('');
            else {
              stops[k]();
              live[k] = false;
            }
          }
        });
      };
      for (const act of acts) add(act);
      for (const url of ['/x', '/y', '/z']) {
        heard = [];
        const before = [...live];
        const d = adapter.navigate(url);
        if (a === 'memory') await d;
        if (bad !== undefined) return bad;
        for (const [n, was] of before.entries()) if (was && live[n] && heard[n] !== 1) return `listener ${n} was called ${heard[n] ?? 0} times by one navigation`;
      }
      ctx.count('transitions', 3);
      ctx.outcome(`w${a}${live}`);
    });

    // ---- (c) overlapping in-memory navigations
    const NAVS = [['/', undefined, 'r'], ['/a', 1, 'r'], ['/a', 2, 'r'], ['/b', 3, 'x'], ['/a', undefined, 'sync'], ['/b', 4, 'r2']];
    await ctx.exploreSpace('overlap', (function* () {
      for (const h of ['none', 'push', 'replace', 'auto']) for (let k = 1; k <= 3; k++) for (const w of words(NAVS.length, k)) yield [h, w];
    })(), async ([history, w], c) => {
      const adapter = new InMemoryAdapter('/', 's');
      let model = { url: '/', state: 's' };
      const scenes = [];
      let pendingNow = null;
      const extra = adapter.listen((scene) => scenes.push(scene));
      adapter.listen((scene, interceptor) => {
        const p = pendingNow;
        if (p.kind === 'sync') return;
        for (let i = 0; i < (p.kind === 'r2' ? 2 : 1); i++) {
          interceptor.intercept({ handler: () => new Promise((res, rej) => p.settle.push(p.kind === 'x' ? () => rej(new Error('failed')) : res)) });
        }
        interceptor.intercept();
        interceptor.scroll();
      });
      const open = [];
      let next = 0;
      const check = (when) => (adapter.getCurrentURL() !== model.url || adapter.getCurrentState() !== model.state ? `${when} the adapter reports ${adapter.getCurrentURL()} with state ${adapter.getCurrentState()}, expected ${model.url} with ${model.state}` : undefined);
      while (next < w.length || open.length > 0) {
        const n = (next < w.length ? 1 : 0) + open.length;
        const k = c.choose(n);
        if (next < w.length && k === 0) {
          const [url, state, kind] = NAVS[w[next++]];
          const p = { url, state, kind, settle: [], got: 'pending' };
          pendingNow = p;
          const before = scenes.length;
          adapter.navigate(url, history === 'none' && state === undefined ? undefined : history === 'none' ? { state } : { state, history }).then(() => (p.got = 'resolved'), (e) => (p.got = `rejected ${e.message}`));
          const type = history === 'push' || history === 'replace' ? history : url === model.url ? 'replace' : 'push';
          const s = scenes.at(-1);
          if (scenes.length !== before + 1 || s.url !== url || s.state !== state || s.navigationType !== type) return `the listener heard ${JSON.stringify(scenes.slice(before))}, expected one ${type} of ${url}`;
          await drain();
          if (kind === 'sync') {
            model = { url, state };
            if (p.got !== 'resolved') return `a navigation nobody intercepted is ${p.got}`;
          } else {
            if (p.got !== 'pending') return `a navigation is ${p.got} while its handler runs`;
            open.push(p);
          }
        } else {
          const p = open[k - (next < w.length ? 1 : 0)];
          p.settle.shift()();
          await drain();
          if (p.settle.length === 0) {
            open.splice(open.indexOf(p), 1);
            if (p.kind === 'x') {
              if (p.got !== 'rejected failed') return `a navigation whose handler failed is ${p.got}`;
            } else {
              model = { url: p.url, state: p.state };
              if (p.got !== 'resolved') return `a finished navigation is ${p.got}`;
            }
          } else if (p.got !== 'pending') return `a navigation is ${p.got} while one of its handlers runs`;
        }
        const m = check('in between');
        if (m !== undefined) return m;
      }
      extra();
      ctx.count('transitions', w.length);
      ctx.outcome(`o${JSON.stringify(scenes)}${model.url}`);
    });

    // ---- (d) application
    const domAdapter = new DOMAdapter();
    let cur;
    const Leaf = createComponent(function Leaf() {
      const { scene, adapter } = this.inject(NavigationContext);
      if (adapter !== cur.adapter) cur.problem ??= 'the context has another adapter';
      return html`<b>${scene.url} ${String(scene.state)} ${String(scene.navigationType)}</b>`;
    });
    const Middle = createComponent(function Middle() {
      return html`<div>${Leaf({})}<i><${Leaf({})}></i></div>`;
    });
    const App = createComponent(function App({ n, mode }) {
      const [count, setCount] = this.useState(0);
      cur.setCount = setCount;
      const { scene } = mode === 'plain' ? this.use(SyncNavigation(cur.adapter)) : this.use(SyncNavigation(cur.adapter, (scene, setScene) => (mode === 'undef' ? undefined : mode === 'focus' ? { focusReset: 'manual' } : { handler: () => setScene(scene, mode === 'sync' ? { flushSync: true } : { transition: 1 }).finished })));
      if (scene.url.endsWith('bad')) throw new Error('no such page');
      return html`<p>${scene.url} ${String(scene.state)} ${String(scene.navigationType)}</p><em>${n}${count}</em><${Middle({})}>`;
    });
    const make = { memory: () => new InMemoryAdapter('/', 's'), browser: () => navAdapter(BrowserAdapter), hash: () => navAdapter(HashAdapter) };
    function navAdapter(C) {
      const nav = new FakeNavigation('http://localhost:3000/#/');
      nav.entry = { getState: () => 's' };
      return Object.assign(new C({ navigation: nav, location: nav.location }), { nav });
    }
    const OPS = { a: ['/a', { state: 1 }], b: ['/b', { state: 2, history: 'replace' }], c: ['/c', undefined], x: ['/bad', { state: 9 }] };
    async function program([kind, mode, ops], c) {
        host.reset('scheduler');
        const adapter = make[kind]();
        cur = { adapter, problem: undefined, setCount: null };
        const container = document.createElement('div');
        const root = new DOMRoot(container, new Runtime(domAdapter));
        let n = 0;
        const scenes = [];
        const records = [];
        let mounted = false; // listening as the model has it
        let last = null;
        const render = (opts) => root.render(App({ n: n++, mode }), opts).finished.catch(() => {});
        render({ flushSync: true });
        await host.settle();
        mounted = true;
        const url0 = adapter.getCurrentURL();
        scenes.push(`${url0} s null`);
        last = 0;
        const shown = () => container.querySelector('p')?.textContent;
        const onStep = () => {
          if (cur.problem !== undefined) return cur.problem;
          const p = shown();
          for (const b of container.querySelectorAll('b')) if (b.textContent !== p) return `a descendant shows the scene ${b.textContent}, the provider ${p}`;
          // A new instance starts with the current URL and state and no kind.
          if (p !== undefined && !scenes.includes(p) && !(p.endsWith(' null') && ops.includes('U') && scenes.some((s) => s.slice(0, s.lastIndexOf(' ')) === p.slice(0, -5)))) return `the document shows the scene ${p}, reported were ${scenes}`;
          for (const r of records) if (r.problem !== undefined) return r.problem;
        };
        const program = ops.map((op) => () => {
          if (op === 'R') render({});
          else if (op === 'S') cur.setCount?.((v) => v + 1);
          else if (op === 'U') {
            root.unmount({});
          } else {
            const [url, options] = OPS[op];
            const bad = op === 'x';
            const before = adapter.getCurrentURL();
            const full = kind === 'browser' ? url : url;
            const type = kind === 'memory' ? options?.history ?? (url === before ? 'replace' : 'push') : options?.history === 'replace' ? 'replace' : 'push';
            const same = kind === 'hash' && url === before;
            const i = scenes.length;
            const hear = container.querySelector('p') !== null && !same;
            scenes.push(`${full} ${String(options?.state)} ${type}`);
            if (hear) last = i;
            const rec = { i, bad, state: 'pending', hear };
            records.push(rec);
            adapter.navigate(url, options).then(() => {
              rec.state = 'resolved';
              if (!hear) return;
              const p = shown();
              const k = p?.endsWith(' null') && ops.includes('U') ? i + 1 : scenes.lastIndexOf(p);
              if (bad && k <= i) rec.problem = 'a navigation whose scene cannot be rendered has finished';
              else if (p !== undefined && k < i) rec.problem = `navigation ${i} (${scenes[i]}) has finished although the document shows ${p}`;
            }, (e) => {
              rec.state = 'rejected';
              rec.error = e;
            });
          }
        });
        const m = await interleave(host, drain, c, program, { onStep });
        if (m !== undefined) return m;
        await host.settle();
        const m2 = onStep();
        if (m2 !== undefined) return m2;
        for (const r of records) {
          if (r.state === 'pending') return `navigation ${r.i} (${scenes[r.i]}) never finished`;
          if (r.state === 'rejected' && !ops.includes('x')) return `navigation ${r.i} failed: ${r.error?.stack} ${r.error?.cause?.stack}`;
        }
        const p = shown();
        if (p !== undefined && !ops.includes('U') && !(ops.includes('x') && ops.lastIndexOf('x') > Math.max(...['a', 'b', 'c'].map((o) => ops.lastIndexOf(o)))) && p !== scenes[last]) return `finally the document shows ${p}, the last navigation reported was ${scenes[last]}`;
        if (p === undefined && !ops.includes('U')) return 'the application is gone';
        if (ops.includes('U') && !ops.slice(ops.lastIndexOf('U')).includes('R') && p !== undefined) return 'the application is still shown after it was unmounted';
        root.unmount({ flushSync: true });
        await host.settle();
        if (adapter.nav !== undefined) {
          const info = adapter.nav.fire('http://localhost:3000/z#/z', { hashChange: kind === 'hash' });
          if (info.intercepts.length !== 0) return 'an unmounted application still intercepts navigations';
        } else {
          let settled = false;
          adapter.navigate('/z').then(() => (settled = true));
          await drain();
          if (!settled || host.pending().length > 0) return 'an unmounted application still intercepts navigations';
        }
        ctx.count('transitions', ops.length);
        ctx.outcome(`d${kind}${mode}${p}${records.map((r) => r.state)}`);
    }
    await ctx.exploreSpace('application', (function* () {
      const al = ['a', 'b', 'c', 'R', 'S', 'U'];
      for (const kind of ['memory', 'browser', 'hash']) for (let k = 1; k <= (T ? 4 : 3); k++) for (const w of words(al.length, k)) yield [kind, 'plain', w.map((i) => al[i])];
      for (const mode of ['undef', 'focus', 'sync', 'trans']) for (const kind of ['memory', 'browser']) for (let k = 1; k <= (T ? 3 : 2); k++) for (const w of words(al.length, k)) yield [kind, mode, w.map((i) => al[i])];
    })(), program);
    await ctx.exploreSpace('failing', (function* () {
      const al = ['a', 'b', 'x'];
      for (const kind of ['memory', 'browser']) for (let k = 1; k <= 3; k++) for (const w of words(al.length, k)) if (w.includes(2)) yield [kind, 'plain', w.map((i) => al[i])];
    })(), program);

    // ---- the application's own interception
    const INTERCEPTIONS = {
      absent: undefined,
      undef: () => undefined,
      empty: () => ({}),
      scroll: () => ({ scroll: 'manual' }),
      both: () => ({ scroll: 'after-transition', focusReset: 'manual' }),
      nothing: () => ({ handler: async () => cur.own++ }),
      set: (scene, setScene) => ({ focusReset: 'manual', handler: () => (cur.own++, setScene(scene, { flushSync: true }).finished) }),
      other: (scene, setScene) => ({ handler: () => (cur.own++, setScene({ ...scene, url: `${scene.url}!` }, {}).finished) }),
      late: (scene, setScene) => ({
        scroll: 'manual',
        handler: async () => {
          cur.own++;
          await null;
          await setScene(scene, { priority: 'user-blocking' }).finished;
        },
      }),
      fail: () => ({
        handler: async () => {
          cur.own++;
          throw new Error('refused');
        },
      }),
    };
    const Own = createComponent(function Own({ interception }) {
      const f = INTERCEPTIONS[interception];
      const { scene } = this.use(
        f === undefined ? SyncNavigation(cur.adapter) : SyncNavigation(cur.adapter, (scene, setScene) => {
          cur.heard.push(scene);
          return (cur.returned = f(scene, setScene));
        }),
      );
      return html`<p>${scene.url} ${String(scene.state)} ${String(scene.navigationType)}</p>`;
    });
    await ctx.space('interception', (function* () {
      const al = ['/a', '/b', '#/c'];
      for (const kind of ['memory', 'browser', 'hash']) for (const i of Object.keys(INTERCEPTIONS)) for (let k = 1; k <= (T ? 5 : 3); k++) for (const w of words(al.length, k)) yield [kind, i, w.map((x) => al[x])];
    })(), async ([kind, interception, urls]) => {
      host.reset('scheduler');
      const adapter = make[kind]();
      cur = { adapter, own: 0, heard: [] };
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(domAdapter));
      root.render(Own({ interception }), { flushSync: true });
      await host.settle();
      const shown = () => container.querySelector('p').textContent;
      let exp = shown();
      const given = [];
      if (adapter.nav === undefined) {
        // Observe what the in-memory adapter is asked for.
        adapter.listen((_scene, interceptor) => {
          const { intercept } = interceptor;
          interceptor.intercept = function (options) {
            given.push(options);
            return intercept.call(this, options);
          };
        });
      }
      let n = 0;
      for (const url of urls) {
        n++;
        const before = adapter.getCurrentURL();
        cur.own = 0;
        cur.heard = [];
        cur.returned = undefined;
        let state = 'pending';
        let info;
        const fire = adapter.nav?.fire;
        if (adapter.nav !== undefined) adapter.nav.fire = function (...args) {
          return (info = fire.apply(this, args));
        };
        adapter.navigate(url, { state: n }).then(() => (state = 'resolved'), (e) => (state = `rejected ${e.message}`));
        if (adapter.nav !== undefined) delete adapter.nav.fire;
        await host.settle();
        const heard = kind === 'memory' || info.event.hashChange === (kind === 'hash');
        const own = ['nothing', 'set', 'other', 'late', 'fail'].includes(interception);
        if (adapter.nav !== undefined) {
          if (info.intercepts.length !== (heard ? 1 : 0)) return `navigation ${n} to ${url} was intercepted ${info.intercepts.length} times, expected ${heard ? 1 : 0}`;
          if (heard) {
            const options = info.intercepts[0];
            if (typeof options.handler !== 'function') return 'the navigation is intercepted without a handler';
            for (const [k, v] of Object.entries(cur.returned ?? {})) if (options[k] !== v) return `the option ${k} of the application is not passed on`;
            for (const k of Object.keys(options)) if (k !== 'handler' && cur.returned?.[k] !== options[k]) return `the option ${k} was made up`;
          }
        }
        if (cur.own !== (own && heard ? 1 : 0)) return `the handler of the application ran ${cur.own} times, expected ${own && heard ? 1 : 0}`;
        if (INTERCEPTIONS[interception] !== undefined && cur.heard.length !== (heard ? 1 : 0)) return `the application was asked ${cur.heard.length} times about navigation ${n}`;
        const type = kind === 'memory' ? (url === before ? 'replace' : 'push') : 'push';
        if (heard) {
          const to = kind === 'browser' ? info.event.destination.url.slice(new URL(info.event.destination.url).origin.length) : url;
          for (const s of cur.heard) if (s.url !== to || s.state !== n || s.navigationType !== type) return `the application was asked about ${JSON.stringify(s)}, expected ${to} ${n} ${type}`;
          if (!['nothing', 'fail'].includes(interception)) exp = `${to}${interception === 'other' ? '!' : ''} ${n} ${type}`;
        }
        if (shown() !== exp) return `after navigation ${n} the document shows ${shown()}, expected ${exp}`;
        const want = heard && interception === 'fail' ? 'rejected refused' : 'resolved';
        if (state !== want) return `navigation ${n} is ${state}, expected ${want}`;
      }
      ctx.count('transitions', urls.length);
      ctx.outcome(`i${kind}${interception}${shown()}`);
    });

    // ---- (e) switching adapters
    const Switch = createComponent(function Switch({ i, n }) {
      const { scene, adapter } = this.use(SyncNavigation(cur.adapters[i]));
      return html`<p>${scene.url} ${String(scene.state)} ${String(scene.navigationType)}</p><em>${n}</em><i>${cur.adapters.indexOf(adapter)}</i>`;
    });
    await ctx.space('switch', (function* () {
      const al = ['0', '1', 'R', 'W', 'U'];
      for (const kind of ['memory', 'browser', 'hash']) for (let k = 2; k <= (T ? 6 : 5); k++) for (const w of words(al.length, k)) yield [kind, w.map((i) => al[i])];
    })(), async ([kind, ops]) => {
      host.reset('scheduler');
      cur = { adapters: [make[kind](), make[kind]()] };
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(domAdapter));
      let i = 0;
      let n = 0;
      let mounted = true;
      let exp; // the scene shown, if it is known
      const render = async () => {
        root.render(Switch({ i, n: n++ }), { flushSync: true });
        await host.settle();
      };
      await render();
      for (const op of ops) {
        if (op === 'W') {
          i = 1 - i;
          mounted = true;
          exp = undefined;
          await render();
        } else if (op === 'R') {
          if (!mounted) exp = undefined;
          mounted = true;
          await render();
        } else if (op === 'U') {
          mounted = false;
          root.unmount({ flushSync: true });
          await host.settle();
        } else {
          const k = Number(op);
          const adapter = cur.adapters[k];
          const url = `/n${n++}`;
          let state = 'pending';
          adapter.navigate(url, { state: n }).then(() => (state = 'resolved'), (e) => (state = `rejected ${e}`));
          await drain();
          const heard = host.pending().length > 0;
          if (heard !== (mounted && k === i)) return `a navigation of adapter ${k} is ${heard ? '' : 'not '}heard while ${mounted ? `adapter ${i} is in use` : 'nothing is mounted'}`;
          await host.settle();
          if (state !== 'resolved') return `a navigation is ${state}`;
          if (heard) exp = `${url} ${n} push`;
        }
        const p = container.querySelector('p')?.textContent;
        if (!mounted && p !== undefined) return 'the application is still shown';
        if (mounted && container.querySelector('i').textContent !== String(i)) return `the context has adapter ${container.querySelector('i').textContent}, expected ${i}`;
        if (mounted && exp !== undefined && p !== exp) return `the document shows ${p}, the last navigation was ${exp}`;
      }
      ctx.count('transitions', ops.length);
      ctx.outcome(`e${container.textContent}`);
    });
    ctx.count('states', ctx.distinctSet.size);
  },
};
