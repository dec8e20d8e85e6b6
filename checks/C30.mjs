// C30 What is handed over is never modified.
import { words } from '../lib/explore.mjs';
import { ser } from '../lib/scene.mjs';

export default {
  id: 'C30',
  rule: 'an item is a history of scenes (each with values for one kind of place: lists, classes, styles, listeners, properties, props, dependencies, states, actions, options, signals, routes, navigation) rendered three times: with plain values, with the same values deeply frozen, and with guards that record every attempt to modify them; documents, effects and outcomes must agree and no attempt may be recorded; distinct outcomes are distinct histories',
  assumptions: ['objects of the application are plain objects, arrays, maps, sets or functions'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { html, createComponent, createFragment, createTemplate, createPortal, createBind, Partial, DOMAdapter, DOMRoot, Runtime, Atom, Computed, Derivable, Router, route } = B;
    const T = ctx.thorough;
    const adapter = new DOMAdapter(document);

    let attempts;
    let guards;
    const isPlain = (o) => {
      if (Array.isArray(o)) return true;
      const p = Object.getPrototypeOf(o);
      return p === Object.prototype || p === null;
    };
    // A stand-in that behaves like the object, but notes attempts to modify it.
    function guard(o) {
      if (typeof o !== 'object' || o === null || !isPlain(o)) return o;
      if (guards.has(o)) return guards.get(o);
      const note = (what) => (_t, k) => {
        attempts.push(`${what} ${typeof k === 'string' || typeof k === 'symbol' ? String(k) : ''} of ${JSON.stringify(o)?.slice(0, 80)}`);
        return true;
      };
      const p = new Proxy(o, {
        get: (t, k) => guard(t[k]),
        getOwnPropertyDescriptor: (t, k) => {
          const d = Reflect.getOwnPropertyDescriptor(t, k);
          if (d !== undefined && 'value' in d && d.configurable) d.value = guard(d.value);
          return d;
        },
        set: note('set'),
        defineProperty: note('defineProperty'),
        deleteProperty: note('delete'),
        setPrototypeOf: note('setPrototypeOf'),
        preventExtensions: (t) => {
          attempts.push(`preventExtensions of ${JSON.stringify(o)?.slice(0, 80)}`);
          return Reflect.preventExtensions(t);
        },
      });
      guards.set(o, p);
      guards.set(p, p);
      return p;
    }
    function freeze(o) {
      if (o === null || (typeof o !== 'object' && typeof o !== 'function') || Object.isFrozen(o)) return o;
      if (typeof o === 'object' && !isPlain(o)) return o;
      Object.freeze(o);
      for (const v of Object.values(o)) freeze(v);
      return o;
    }
    const MODES = { plain: (o) => o, frozen: freeze, guarded: guard };

    let H; // hands a value over in the mode of the run
    let log;
    const li = (n) => html`<li>${n}</li>`.withKey(n);
    const Child = createComponent(function Child(props) {
      this.useEffect(() => {
        log.push(`mount ${JSON.stringify(props)}`);
        return () => log.push('unmount');
      }, []);
      return html`<i>${JSON.stringify(props)}</i>`;
    }, { arePropsEqual: B.shallowEqual });
    const Deps = createComponent(function Deps({ deps }) {
      const m = this.useMemo(() => log.push('memo'), deps);
      const c = this.useCallback(() => m, deps);
      this.useEffect(() => {
        log.push(`effect ${deps}`);
        return () => log.push('cleanup');
      }, deps);
      const ref = this.useRef(null);
      this.use(B.ImperativeHandle(ref, () => m, deps));
      return html`<u>${c()}</u>`;
    });
    const State = createComponent(function State({ initial, actions, options }) {
      const [s, dispatch] = this.useReducer((s, a) => ({ ...s, ...a, n: s.n + 1 }), initial);
      const [list, setList] = this.useState(() => H([1]));
      const deferred = this.use(B.DeferredValue(initial, H({ ...options })));
      const [pending, start] = this.use(B.Transition());
      this.useEffect(() => {
        for (const a of actions) dispatch(a, options);
        setList((l) => [...l, actions.length], options);
        start((transition) => dispatch(H({ t: actions.length }), H({ transition })));
      }, [actions]);
      return html`<b>${JSON.stringify([s, list, deferred, pending])}</b>`;
    });
    const Reads = createComponent(function Reads({ signal }) {
      return html`<s>${JSON.stringify(this.use(signal))}</s>`;
    });
    const Nav = createComponent(function Nav({ a, options }) {
      const { scene } = this.use(B.SyncNavigation(a, () => options));
      return html`<p>${JSON.stringify(scene)}</p>`;
    });
    const routesOf = () => H([route(['', ''], () => 'home'), route(['', 'a', B.integer], H([...[1]]) && ((c) => `a${c}`), [route(['b'], () => 'b'), route([B.choice(H ? B.keyword('x') : null, B.integer)], (c) => JSON.stringify(c))])]);
    const tpl = new Map();
    const strings = (key, ss) => {
      const k = `${key} ${mode}`;
      if (!tpl.has(k)) tpl.set(k, Object.freeze(ss));
      return tpl.get(k);
    };
    let mode;

    // Per kind of place: values, and how they are rendered.
    const PLACES = {
      list: {
        values: () => [[1, 2, 3].map(li), [3, 1].map(li), [], [[1, 2].map(li), [2].map(li)], [null, 'x', [], [li(1)]], [li(2), li(1), li(4)]],
        render: (v) => html`<ul><${v}></ul>`,
      },
      fragment: {
        values: () => [[1, 2, 3].map(li), [3, 2, 1].map(li), [li(4), null], [[li(1)], li(2)]],
        render: (v) => createFragment(v),
      },
      template: {
        values: () => [['x', { a: true }, { color: 'red' }], ['y', { b: true }, { width: '1px' }], [null, 'c', 'height: 2px'], [['p', 'q'], { a: false, 'c d': true }, {}]],
        render: (v) => createTemplate('html', strings('t', ['<p title="', '" class=', ' style=', '></p>']), v),
      },
      class: {
        values: () => [{ a: true, b: false }, { b: true }, { 'a c': true, a: false }, { a: undefined, d: null }, 'a b', null, {}],
        render: (v) => html`<p class=${v}></p>`,
      },
      style: {
        values: () => [{ color: 'red', width: '1px' }, { width: '2px' }, { color: 'red !important', '--x': 'y' }, { color: undefined, width: null }, 'color: blue', null, {}],
        render: (v) => html`<p style=${v}></p>`,
      },
      event: {
        values: () => [{ handleEvent: () => log.push('e1') }, { handleEvent: () => log.push('e2'), capture: true }, { handleEvent: () => log.push('e3'), once: true, passive: true }, Object.assign(() => log.push('f1'), { capture: true }), () => log.push('f2'), null],
        render: (v) => html`<p @click=${v}></p>`,
        after: (c) => c.querySelector('p')?.click(),
      },
      property: {
        // Lists are bound one item after the other.
        values: () => [{ x: 1 }, { l: [1, 2] }, { x: { y: [] } }, null, Object.assign(Object.create(null), { q: 1 })],
        render: (v) => html`<p .custom=${v} $other=${v}></p>`,
        after: (c, v) => {
          const p = c.querySelector('p');
          if (p !== null) log.push(p.custom === v && p.other === v ? 'same' : `other ${p.custom}`);
        },
      },
      props: {
        values: () => [{ a: 1 }, { a: 1 }, { a: { b: [1] } }, { children: [1, 2], key: 'k' }, {}],
        render: (v) => html`<${Child(v)}><${[Child(v).withKey('k')]}>`,
      },
      deps: {
        values: () => [[], [1], [1], [1, 2], [{}, 'x'], [NaN]],
        render: (v) => Deps({ deps: v }),
      },
      state: {
        values: () => [[{ n: 0 }, [{ a: 1 }], { flushSync: true }], [{ n: 5, l: [] }, [{ a: [2] }, { b: {} }], { priority: 'background' }], [{ n: 1 }, [], { delay: 5 }], [{ n: 2 }, [{ c: 0 }], { handler: (commit) => commit() }]],
        render: ([initial, actions, options]) => State({ initial, actions, options }),
      },
      options: {
        values: () => [{ flushSync: true }, { priority: 'background' }, { priority: 'user-blocking', delay: 3 }, { transition: 4 }, { handler: (commit) => commit() }, {}],
        render: (v) => html`<p>${Object.keys(v).join()}</p>`,
        options: (v) => v,
      },
      atom: {
        values: () => [{ a: [1] }, [1, 2], { b: { c: 0 } }, null],
        render: (v) => html`<${Reads({ signal: new Atom(v) })}><${Reads({ signal: new Computed((x, y) => [x, y], H([new Atom(v), new Atom(H([1]))])) })}>${new Atom(v).map((x) => JSON.stringify(x))}`,
      },
      derivable: {
        values: () => [{ a: { b: 1 }, l: [1, 2] }, { a: { b: 2 }, l: [], z: null }, { a: { b: { c: 1 } }, l: [{}] }],
        render: (v) => {
          const d = Derivable.from(v);
          const was = JSON.stringify(v);
          d.get('a').value = H({ b: H([7]) });
          log.push(JSON.stringify(d.value));
          d.scope((x) => {
            x.l.push(H({ p: 1 }));
            x.l.reverse();
            x.a.q = H({ r: 1 });
            x.a.q.r = 2;
            delete x.z;
          });
          log.push(JSON.stringify(d.value));
          d.get('l').get(0).value = 9;
          log.push(JSON.stringify(d.value), JSON.stringify(v) === was ? 'kept' : 'modified');
          return Reads({ signal: d });
        },
      },
      router: {
        values: () => ['/', '/a/1', '/a/1/b', '/a/2/x', '/a/2/3', '/none'],
        render: (v) => html`<p>${new Router(routesOf()).match(v)}</p>`,
      },
      navigation: {
        values: () => [[{ s: 1 }, { scroll: 'manual' }], [[1, { t: [] }], undefined], [{}, {}]],
        render: ([, options]) => Nav({ a: my.nav, options }),
        after: (c, [state]) => {
          void my.nav.navigate('/x', H({ state, history: 'push' }))?.catch?.(() => {});
        },
      },
      partial: {
        values: () => [[1, ['a', 'b']], [2, ['', '']], [3, ['x', 'y']]],
        render: ([n, ss]) => Partial.html(strings('p', ['<p>', '', '</p>']), Partial.parse(strings(`q${n}`, [...ss]), n), Partial.literal('!')),
      },
      compare: {
        values: () => [[[1, 2], [1, 2]], [[{}], [{}, 1]], [[], []], [[{ a: 1 }], [{ a: 1 }]]],
        render: ([x, y]) => html`<p>${String(B.sequentialEqual(x, y))} ${String(B.shallowEqual(x, y))} ${String(x.length > 0 && y.length > 0 && B.sequentialEqual(x, y, B.shallowEqual))}</p>`,
      },
      collection: {
        values: () => [[1, 2, 3], [3, 1], []],
        render: (v) => {
          const s = new Set(v.map(li));
          const m = new Map(v.map((x) => [x, li(x)]));
          const out = html`<ul><${s}></ul><ol><${[...m.values()]}></ol>`;
          log.push(s.size, m.size);
          return out;
        },
        after: (c, v) => log.push(JSON.stringify(v)),
      },
      refs: {
        values: () => [[1], [2, 1], []],
        render: (v) => html`<p @click=${null}></p><${v.map((x) => html`<i ${H([my.refs[0], my.refs[x]])} class=${H({ [`c${x}`]: true })}></i>`)}>`,
        after: () => log.push(my.refs.map((r) => r.current?.localName)),
      },
      portal: {
        values: () => [[li(1)], [[li(2), li(1)]], [null], [{ toString: () => 'o' }]],
        render: ([v]) => createPortal(html`<p><${v instanceof Object && !Array.isArray(v) && 'toString' in v && Object.hasOwn(v, 'toString') ? createBind(null) : v}></p>`, my.portal),
      },
    };
    let my;
    async function runMode(m, place, word) {
      mode = m;
      attempts = [];
      guards = new WeakMap();
      H = MODES[m];
      log = [];
      host.reset();
      const container = document.createElement('div');
      my = { portal: document.createElement('aside'), nav: new B.InMemoryAdapter('/'), refs: [new B.Ref(null), new B.Ref(null), new B.Ref(null)] };
      const root = new DOMRoot(container, new Runtime(adapter));
      const P = PLACES[place];
      const values = P.values().map((v) => H(v));
      const out = [];
      for (const i of word) {
        log.length = 0;
        let state = 'pending';
        try {
          const v = values[i];
          const h = root.render(P.render(v), P.options?.(v) ?? H({ flushSync: true }));
          h.finished.then(() => (state = 'resolved'), (e) => (state = `rejected ${e?.cause?.message ?? e?.message}`));
          await host.settle();
          P.after?.(container, v);
          await host.settle();
        } catch (e) {
          state = `threw ${e.message}`;
        }
        ctx.count('transitions');
        out.push(`${ser(container)} ${ser(my.portal)} ${log} ${state}`);
      }
      root.unmount({ flushSync: true });
      await host.settle();
      out.push(`${ser(container)} ${log}`);
      for (const kept of [dom.unhandled, dom.reported]) {
        if (kept.length > 0) out.push(String(kept[0]?.message ?? kept[0]));
        kept.length = 0;
      }
      return out;
    }
    await ctx.space('histories', (function* () {
      for (const place of Object.keys(PLACES)) {
        my = { nav: null };
        H = (o) => o;
        log = [];
        const n = PLACES[place].values().length;
        for (let k = 1; k <= (T ? 5 : n > 5 ? 3 : 4); k++) for (const w of words(n, k)) yield [place, w];
      }
    })(), async ([place, word]) => {
      const plain = await runMode('plain', place, word);
      for (const x of plain.slice(0, -1)) if (!x.endsWith(' resolved')) return `plain values: ${x}`;
      // Properties of frozen objects are read-only in drafts.
      for (const m of place === 'derivable' ? ['guarded'] : ['frozen', 'guarded']) {
        const got = await runMode(m, place, word);
        for (const [i, x] of plain.entries()) if (got[i] !== x) return `${m}: step ${i + 1}\n got ${got[i]}\nwant ${x}`;
        if (attempts.length > 0) return `attempt to modify what was handed over: ${attempts[0]}`;
      }
      ctx.outcome(plain.join());
    });
    ctx.count('states', ctx.distinctSet.size);
  },
};
