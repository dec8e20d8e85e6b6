// C17 Bindings show the last value, whatever they showed before.
import { words } from '../lib/explore.mjs';

export default {
  id: 'C17',
  rule: 'an item is a kind of binding and a history of values (directly, keyed, from a component, from state), interleaved with changes from outside; after every commit the element is compared with what the last value alone describes, and property writes with the values that changed; distinct outcomes are distinct observed states',
  assumptions: ['objects used as values are not modified afterwards', 'class and style values are strings, maps or nullish', 'shorthand properties only by means of a stand-in (jsdom does not remove its own correctly)', 'lists are bound only to class and style attributes, with items that are disjoint and keep their places'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host } = dom;
    const { html, svg, createBind, createComponent, createFragment, Runtime, DOMAdapter, DOMRoot } = B;
    const T = ctx.thorough;
    const adapter = new DOMAdapter();
    const OBJ = { toString: () => 'obj' };
    const OBJ2 = { x: 1 };
    const FN = () => 'called';
    const text = (v) => (v === null || v === undefined ? '' : String(v));
    const BASIC = { null: null, undef: undefined, true: true, false: false, empty: '', x: 'x', y: ' y ', zero: 0, mzero: -0, nan: NaN, one: 1, sone: '1', big: 1n, obj: OBJ, obj2: OBJ2, fn: FN, sym: Symbol('s'), strue: 'true', markup: '<b>&amp;"\'' };
    let writes = [];
    let store = new WeakMap();
    for (const name of ['spy', 'spyCase']) {
      Object.defineProperty(jsdomWindow.HTMLElement.prototype, name, {
        configurable: true,
        get() {
          return store.get(this)?.[name];
        },
        set(v) {
          writes.push([name, v]);
          if (!store.has(this)) store.set(this, {});
          store.get(this)[name] = v;
        },
      });
    }

    // Class values as the set of tokens they describe: later keys win.
    const CLASSES = {
      null: null, undef: undefined, empty: '', a: 'a', ab: 'a b', ba: '  b\n a ', c: 'c', aa: 'a a',
      m: {}, mA: { a: true }, ma: { a: false }, mAB: { 'a b': true }, mAb: { a: true, b: false }, mABa: { 'a b': true, a: false }, maAB: { a: false, ' a  b ': true }, mB1: { b: 1, c: '' }, mundef: { a: undefined, c: true },
    };
    const classTokens = (v) => {
      const out = new Set();
      const entries = typeof v === 'object' && v !== null ? Object.entries(v) : [[text(v), true]];
      for (const [keys, on] of entries) for (const k of keys.split(/\s+/)) if (k !== '') out[on ? 'add' : 'delete'](k);
      return out;
    };
    // Style values, set one by one on an element of their own.
    const STYLES = {
      null: null, undef: undefined, empty: '', red: 'color: red', redm: 'color: red; margin: 1px', blue: 'color:blue;', vars: '--v: 1; --V: 2', imp: 'color: red !important', bad: 'color: 12; width: 3px',
      m: {}, mred: { color: 'red' }, mbg: { backgroundColor: 'blue' }, mkebab: { 'background-color': 'green', color: null }, mvar: { '--myVar': '1', '--my-var': '2' }, mpad: { paddingTop: '1px', 'padding-left': '2px' }, mempty: { color: '' }, mundef: { color: undefined, width: '1px' }, mbad: { color: '12', width: '3px' }, mimp: { color: 'red !important', width: '2px' }, mkit: { webkitTextFillColor: 'red' }, mimps: { color: 'blue!IMPORTANT ', width: '2px ' },
    };
    const kebab = (k) => (k.startsWith('--') ? k : k.replace(/^(webkit|moz|ms|o)(?=[A-Z])/, '-$1').replace(/[A-Z]/g, (c) => `-${c.toLowerCase()}`));
    const declarations = (style) => [...style].map((p) => `${p}:${style.getPropertyValue(p)}${style.getPropertyPriority(p) ? '!' : ''}`).sort().join(';');
    const styleOf = (v, extra) => {
      const el = document.createElement('div');
      if (typeof v === 'object' && v !== null) {
        for (const [k, x] of Object.entries(v)) {
          if (x == null) continue;
          const m = /^(.*?)\s*!important\s*$/i.exec(x);
          el.style.setProperty(kebab(k), m ? m[1] : x, m ? 'important' : '');
        }
      } else el.style.cssText = text(v);
      for (const [k, x] of extra) el.style.setProperty(k, x);
      return declarations(el.style);
    };

    // Kinds of bindings: values, the template, and what is to be observed.
    const attribute = (tpl, name) => ({
      values: BASIC,
      tpl,
      expected: (v) => (v === null || v === undefined || v === false ? null : v === true ? '' : String(v)),
      observed: (el) => el.getAttribute(name),
    });
    const KINDS = {
      title: attribute((v) => html`<p title=${v}></p>`, 'title'),
      quoted: attribute((v) => html`<p lang="x" data-q="${v}" id="y"></p>`, 'data-q'),
      hidden: attribute((v) => html`<p hidden=${v}></p>`, 'hidden'),
      aria: attribute((v) => html`<p aria-checked='${v}'></p>`, 'aria-checked'),
      value: attribute((v) => html`<input value=${v}>`, 'value'),
      viewBox: attribute((v) => svg`<symbol viewBox=${v}></symbol>`, 'viewBox'),
      text: { values: BASIC, tpl: (v) => html`<p>${v}</p>`, expected: text, observed: (el) => el.textContent },
      texts: { values: BASIC, tpl: (v) => html`<p>a${v}b<i></i></p>`, expected: (v) => `a${text(v)}b`, observed: (el) => el.textContent },
      textarea: { values: BASIC, tpl: (v) => html`<textarea>${v}</textarea>`, expected: text, observed: (el) => el.textContent },
      svgtext: { values: BASIC, tpl: (v) => svg`<text>${v}</text>`, expected: text, observed: (el) => el.textContent },
      class: {
        values: CLASSES,
        tpl: (v) => html`<p class=${v}></p>`,
        outside: (el, s) => {
          el.classList.add(`ext${s.n}`);
          s.extra.push(`ext${s.n++}`);
        },
        expected: (v, s) => [...classTokens(v), ...s.extra].sort().join(' '),
        observed: (el) => [...el.classList].sort().join(' '),
      },
      svgclass: {
        values: CLASSES,
        tpl: (v) => svg`<g class=${v}></g>`,
        expected: (v, s) => [...classTokens(v), ...s.extra].sort().join(' '),
        observed: (el) => [...el.classList].sort().join(' '),
      },
      style: {
        values: STYLES,
        tpl: (v) => html`<p style=${v}></p>`,
        outside: (el, s) => {
          s.extra.push(['z-index', `${++s.n}`]);
          el.style.setProperty('z-index', `${s.n}`);
        },
        expected: (v, s) => styleOf(v, s.extra),
        observed: (el) => declarations(el.style),
      },
      property: {
        values: BASIC,
        tpl: (v) => html`<p .spy=${v}></p>`,
        writes: (v, old, first) => (first || !Object.is(v, old) ? [['spy', v]] : []),
        expected: (v) => v,
        observed: (el) => el.spy,
      },
      properties: {
        values: BASIC,
        tpl: (v) => html`<p .spyCase=${v} .spy="${v}"></p>`,
        writes: (v, old, first) => (first || !Object.is(v, old) ? [['spyCase', v], ['spy', v]] : []),
        expected: (v) => v,
        observed: (el) => (Object.is(el.spyCase, el.spy) ? el.spy : [el.spyCase, el.spy]),
      },
      live: {
        values: BASIC,
        tpl: (v) => html`<p $spy=${v}></p>`,
        outside: (el, s) => {
          const v = [undefined, 'x', 7, null][s.n++ % 4];
          el.spy = v;
          writes = [];
          s.user = true;
        },
        expected: (v) => v,
        observed: (el) => el.spy,
        loose: true,
      },
      livevalue: {
        values: BASIC,
        tpl: (v) => html`<input $value=${v}>`,
        outside: (el, s) => (el.value = `typed ${s.n++}`),
        skip: (name) => name === 'sym',
        expected: (v) => (v === null ? '' : `${typeof v === 'symbol' ? '' : v}`),
        observed: (el) => el.value,
      },
      checked: {
        values: { true: true, false: false },
        tpl: (v) => html`<input type=checkbox $checked=${v}>`,
        outside: (el) => (el.checked = !el.checked),
        expected: (v) => v,
        observed: (el) => el.checked,
      },
    };
    const Give = createComponent(function Give({ v }) {
      return v();
    });
    // A component whose template is updated by its own state.
    const setters = [];
    const Own = createComponent(function Own({ kind, v }) {
      const [value, set] = this.useState(() => v);
      setters.push(set);
      return KINDS[kind].tpl(value);
    });
    const wrapValue = (v, w) => {
      switch (w) {
        case 'k':
          return createBind(v).withKey('k');
        case 'c':
          return Give({ v: () => v });
        case 'l':
          return createFragment([v]);
        default:
          return v;
      }
    };
    const show = (x) => (typeof x === 'string' ? JSON.stringify(x) : typeof x === 'object' && x !== null ? JSON.stringify(x) : Object.is(x, -0) ? '-0' : String(x));

    async function run([kind, mode, steps]) {
      host.reset('scheduler');
      const K = KINDS[kind];
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      const s = { n: 0, extra: [] };
      let error;
      let first = true;
      let old;
      let wrapping;
      let element;
      let log = '';
      for (const step of steps) {
        if (step === '!') {
          if (!first) K.outside?.(element, s);
          continue;
        }
        const [name, w = 'v'] = step.split(':');
        const v = K.values[name];
        writes = [];
        if (mode === 'state') {
          if (first) root.render(Own({ kind, v }), { flushSync: true }).finished.catch((e) => (error ??= e));
          else setters.at(-1)(() => v, { flushSync: true }).finished.catch((e) => (error ??= e));
        } else root.render(K.tpl(wrapValue(v, w)), mode === 'sync' ? { flushSync: true } : { priority: 'background' }).finished.catch((e) => (error ??= e));
        await host.settle();
        if (error !== undefined) return `${step} failed: ${error.stack}\n${error.cause?.stack}`;
        if (!first && container.firstElementChild !== element) return `${step} replaced the element`;
        element = container.firstElementChild;
        // A state that did not change renders nothing, so that a live binding
        // is not brought up to date.
        const rendered = mode !== 'state' || first || !Object.is(v, old);
        if (rendered || K.outside === undefined) {
          const got = K.observed(element);
          const exp = K.expected(v, s);
          if (!Object.is(got, exp) && !(K.loose && got === exp)) return `after ${step} there is ${show(got)}, expected ${show(exp)}`;
          log += `${show(got)};`;
        }
        if (K.writes) {
          const exp = K.writes(v, old, first || wrapping !== w);
          if (writes.length !== exp.length || writes.some((x, i) => x[0] !== exp[i][0] || !Object.is(x[1], exp[i][1]))) return `${step} writes ${writes.map(([k, x]) => `${k}=${show(x)}`)}, expected ${exp.map(([k, x]) => `${k}=${show(x)}`)}`;
        }
        old = v;
        wrapping = w;
        first = false;
      }
      ctx.count('transitions', steps.length);
      ctx.outcome(`${kind}${log}`);
    }
    const namesOf = (kind) => Object.keys(KINDS[kind].values).filter((x) => !KINDS[kind].skip?.(x));
    await ctx.space('histories', (function* () {
      for (const kind of Object.keys(KINDS)) {
        const names = namesOf(kind);
        const deep = ['class', 'style', 'live', 'property', 'title', 'text', 'checked'].includes(kind);
        const al = [...names, ...(KINDS[kind].outside ? ['!'] : [])];
        for (const w of words(al.length, T && deep ? 4 : 3)) yield [kind, 'sync', w.map((i) => al[i])];
        for (const mode of ['async', 'state']) for (const w of words(al.length, deep || T ? 3 : 2)) yield [kind, mode, w.map((i) => al[i])];
      }
    })(), run);
    await ctx.space('wrapped', (function* () {
      for (const kind of Object.keys(KINDS)) {
        const names = namesOf(kind).filter((x) => !['sym', 'obj2', 'big', 'fn', 'sone'].includes(x));
        const all = names.flatMap((x) => (kind === 'class' || kind === 'style' ? ['v', 'k', 'c', 'l'] : ['v', 'k', 'c']).map((w) => `${x}:${w}`));
        const al = T ? all : all.filter((_, i) => i % 2 === 0 || all.length < 40);
        for (const w of words(all.length, 2)) yield [kind, 'sync', w.map((i) => all[i])];
        const few = al.slice(0, T ? 40 : 24);
        for (const w of words(few.length, 3)) yield [kind, 'sync', w.map((i) => few[i])];
      }
    })(), run);

    // Lists of disjoint values in class and style attributes.
    await ctx.space('lists', (function* () {
      const pools = { class: [['a', { a: true }, { a: false }, ''], ['b', { 'b c': true }, null], ['d']], style: [['color: red', { color: 'blue' }, {}], [{ marginTop: '1px' }, 'margin-top: 2px', null], [{ '--x': '1' }]] };
      for (const kind of ['class', 'style']) {
        const lists = [[]];
        for (const x of pools[kind][0]) {
          lists.push([x]);
          for (const y of pools[kind][1]) lists.push([x, y]);
        }
        for (const y of pools[kind][1]) lists.push([pools[kind][0][0], y, pools[kind][2][0]]);
        for (const k of [2, 3]) for (const w of words(lists.length, k)) yield [kind, w.map((i) => lists[i])];
      }
    })(), async ([kind, hist]) => {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      for (const list of hist) {
        let error;
        root.render(KINDS[kind].tpl(list), { flushSync: true }).finished.catch((e) => (error = e));
        await host.settle();
        if (error) return `failed: ${error.stack} ${error.cause?.stack}`;
        const exp = kind === 'class' ? [...new Set(list.flatMap((x) => [...classTokens(x)]))].sort().join(' ') : list.flatMap((x) => styleOf(x, []).split(';')).filter(Boolean).sort().join(';');
        const got = KINDS[kind].observed(container.firstElementChild);
        if (got !== exp) return `after ${JSON.stringify(list)} there is ${got}, expected ${exp}`;
        ctx.outcome(`${kind}${got}`);
      }
      ctx.count('transitions', hist.length);
    });

    // Names of style properties, in a host that has the properties of every vendor.
    const NAMES = {
      opacity: 'opacity', order: 'order', orphans: 'orphans', outlineColor: 'outline-color', 'outline-color': 'outline-color', overflowX: 'overflow-x', objectFit: 'object-fit', oObjectFit: '-o-object-fit', OObjectFit: '-o-object-fit', '-o-object-fit': '-o-object-fit',
      msTransform: '-ms-transform', MsTransform: '-ms-transform', '-ms-flex-pack': '-ms-flex-pack', msFlexPack: '-ms-flex-pack', mozAppearance: '-moz-appearance', MozAppearance: '-moz-appearance', '-moz-appearance': '-moz-appearance',
      webkitTextFillColor: '-webkit-text-fill-color', WebkitTextFillColor: '-webkit-text-fill-color', '-webkit-text-fill-color': '-webkit-text-fill-color', marginTop: 'margin-top', maskType: 'mask-type', borderTopLeftRadius: 'border-top-left-radius', zIndex: 'z-index', '--msTransform': '--msTransform', '--ms-transform': '--ms-transform', '--oX': '--oX', '--X': '--X',
    };
    const STYLE_VALUES = { outlineColor: 'red', 'outline-color': 'red', overflowX: 'hidden', objectFit: 'cover', webkitTextFillColor: 'red', WebkitTextFillColor: 'red', '-webkit-text-fill-color': 'red', marginTop: '1px', maskType: 'alpha', borderTopLeftRadius: '1px' };
    await ctx.space('style names', (function* () {
      const keys = Object.keys(NAMES);
      for (const a of keys) for (const b of [null, ...keys]) for (const c of b === null || T ? [null, a, ...keys] : [null, a]) {
        if (a !== b && b !== null && NAMES[a] === NAMES[b]) continue;
        yield [a, b, c];
      }
    })(), async (hist) => {
      let proto = Object.getPrototypeOf(document.createElement('i').style);
      while (!Object.hasOwn(proto, 'setProperty')) proto = Object.getPrototypeOf(proto);
      const saved = {};
      const at = (name) => (/^-(ms|o|moz)-/.test(name) || name === 'mask-type' ? `--vendor${name}` : name);
      for (const m of ['setProperty', 'removeProperty', 'getPropertyValue', 'getPropertyPriority']) {
        saved[m] = proto[m];
        proto[m] = function (name, ...rest) {
          return saved[m].call(this, at(String(name)), ...rest);
        };
      }
      try {
        host.reset('scheduler');
        const container = document.createElement('div');
        const root = new DOMRoot(container, new Runtime(adapter));
        const value = (k) => STYLE_VALUES[k] ?? '1';
        // Two properties at once, then one.
        for (const keys of [[hist[0], hist[1]], [hist[2]], [hist[1]]]) {
          const map = {};
          const exp = [];
          for (const k of keys) if (k !== null && !Object.hasOwn(map, k)) {
            map[k] = value(k);
            exp.push(`${at(NAMES[k])}:${value(k)}`);
          }
          let error;
          root.render(html`<p style=${map}></p>`, { flushSync: true }).finished.catch((e) => (error = e));
          await host.settle();
          if (error) return `failed: ${error.stack} ${error.cause?.stack}`;
          const { style } = container.firstElementChild;
          const got = [...style].map((n) => `${n}:${saved.getPropertyValue.call(style, n)}`).sort().join(';');
          if (got !== exp.sort().join(';')) return `${JSON.stringify(map)} leaves ${got}, expected ${exp.join(';')}`;
          ctx.outcome(`n${got}`);
        }
        ctx.count('transitions', 3);
      } finally {
        Object.assign(proto, saved);
      }
    });

    // Shorthand and longhand properties side by side: a stand-in shorthand,
    // since jsdom does not remove its own correctly.
    const PAIRS = [['--sh', '1'], ['--sh', '2'], ['--sh', null], ['--sh-a', '1'], ['--sh-a', '3'], ['--sh-a', null], ['--sh-b', '1']];
    const MAPS = [null];
    for (let k = 0; k <= 3; k++) for (const w of words(PAIRS.length, k)) {
      const names = w.map((i) => PAIRS[i][0]);
      if (new Set(names).size === k) MAPS.push(Object.fromEntries(w.map((i) => PAIRS[i])));
    }
    await ctx.space('shorthands', (function* () {
      for (const w of words(MAPS.length, 2)) yield w.map((i) => MAPS[i]);
      const few = MAPS.slice(0, T ? 30 : 16);
      for (const w of words(few.length, 3)) yield w.map((i) => few[i]);
    })(), async (hist) => {
      let proto = Object.getPrototypeOf(document.createElement('i').style);
      while (!Object.hasOwn(proto, 'setProperty')) proto = Object.getPrototypeOf(proto);
      const saved = {};
      for (const m of ['setProperty', 'removeProperty']) {
        saved[m] = proto[m];
        proto[m] = function (name, ...rest) {
          if (name !== '--sh') return saved[m].call(this, name, ...rest);
          for (const n of ['--sh-a', '--sh-b']) saved[m].call(this, n, ...rest);
        };
      }
      try {
        host.reset('scheduler');
        const container = document.createElement('div');
        const root = new DOMRoot(container, new Runtime(adapter));
        for (const map of hist) {
          let error;
          root.render(html`<p style=${map}></p>`, { flushSync: true }).finished.catch((e) => (error = e));
          await host.settle();
          if (error) return `failed: ${error.stack} ${error.cause?.stack}`;
          const exp = {};
          for (const [k, v] of Object.entries(map ?? {})) if (v !== null) for (const n of k === '--sh' ? ['--sh-a', '--sh-b'] : [k]) exp[n] = v;
          const got = declarations(container.firstElementChild.style);
          const want = Object.entries(exp).map(([k, v]) => `${k}:${v}`).sort().join(';');
          if (got !== want) return `after ${JSON.stringify(hist)} there is ${got}, expected ${want}`;
          ctx.outcome(`s${got}`);
        }
        ctx.count('transitions', hist.length);
      } finally {
        Object.assign(proto, saved);
      }
    });

    // Several bindings on one element and on neighbours do not affect each other.
    await ctx.space('neighbours', (function* () {
      const al = [null, 'x', true, 7];
      for (const a of words(4, 4)) for (const b of words(4, 4)) yield [a.map((i) => al[i]), b.map((i) => al[i])];
    })(), async ([a, b]) => {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      const tpl = ([p, q, r, s]) => html`<p title=${p} .spy=${q} class="${{ x: p }}" lang=${r}>${s}<i title=${q} $spy=${p}>${r} and ${p}</i>${q}</p>`;
      for (const v of [a, b, a]) {
        const [p, q, r, s] = v;
        let error;
        root.render(tpl(v), { flushSync: true }).finished.catch((e) => (error = e));
        await host.settle();
        if (error) return `failed: ${error.stack} ${error.cause?.stack}`;
        const el = container.firstElementChild;
        const i = el.querySelector('i');
        const at = (x) => (x === null ? null : x === true ? '' : String(x));
        const got = [el.getAttribute('title'), el.spy, el.className, el.getAttribute('lang'), el.textContent, i.getAttribute('title'), i.spy];
        const exp = [at(p), q, p ? 'x' : '', at(r), `${text(s)}${text(r)} and ${text(p)}${text(q)}`, at(q), p ?? i.spy];
        if (got.some((x, k) => !Object.is(x, exp[k]))) return `after ${JSON.stringify(v)} there is ${JSON.stringify(got)}, expected ${JSON.stringify(exp)}`;
      }
      ctx.count('transitions', 3);
    });
    ctx.count('states', ctx.distinctSet.size);
  },
};
