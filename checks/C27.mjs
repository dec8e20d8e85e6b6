// C27 A value renders alike however it is written: iterables, bindables,
// reused elements, several roots.
import { makeEnv, makeVocabulary, ser } from '../lib/scene.mjs';
import { medium, CONTEXTS } from './C01.mjs';

export default {
  id: 'C27',
  rule: 'an item is a history of values, each in one of several forms, at one place; documents, the nodes kept, effects and events are compared after every render with those of the same history in plain form (arrays, elements, primitives made anew); distinct outcomes are distinct documents',
  assumptions: ['jsdom implements the DOM operations used', 'iterables give the same items in every iteration, or are used once', 'lists in text holes are excluded'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const T = ctx.thorough;
    const { html, svg, createFragment, createBind, createComponent, createPortal, toElement, DOMAdapter, DOMRoot, Runtime } = B;
    const adapter = new DOMAdapter(document);
    let log = [];
    let misuse = null;

    // ---------- forms ----------
    // An iterable that may be iterated once only, and must be iterated to its end.
    function* generate(items) {
      yield* items;
    }
    class Once {
      #items;
      #used = false;
      constructor(items) {
        this.#items = items;
      }
      [Symbol.iterator]() {
        if (this.#used) misuse = 'an iterable was iterated twice';
        this.#used = true;
        return this.#items[Symbol.iterator]();
      }
    }
    class List extends Array {}
    class Linked {
      constructor(items) {
        this.items = items;
      }
      *[Symbol.iterator]() {
        for (const i of this.items) yield i;
      }
      get length() {
        return 99;
      }
    }
    class Both {
      constructor(element) {
        this.element = element;
      }
      [toElement]() {
        return this.element;
      }
      *[Symbol.iterator]() {
        misuse = 'a value that converts itself was iterated';
      }
    }
    const bindable = (element) => ({ [toElement]: () => element });
    const callable = (element) => Object.assign(() => (misuse = 'a bindable function was called'), { [toElement]: () => element });
    const LISTS = {
      array: (xs) => xs,
      frozen: (xs) => Object.freeze(xs.slice()),
      set: (xs) => new Set(xs),
      values: (xs) => new Map(xs.map((x, i) => [i, x])).values(),
      generator: (xs) => generate(xs),
      once: (xs) => new Once(xs),
      list: (xs) => List.from(xs),
      linked: (xs) => new Linked(xs),
      nullproto: (xs) => Object.assign(Object.create(null), { [Symbol.iterator]: () => xs[Symbol.iterator]() }),
      fragment: (xs) => createFragment(xs),
      fragmentOf: (xs) => createFragment(generate(xs)),
      bindable: (xs) => bindable(createFragment(xs)),
      both: (xs) => new Both(createFragment(xs)),
      callable: (xs) => callable(createFragment(generate(xs))),
    };
    const ELEMENTS = {
      plain: (e) => e,
      bindable: (e) => bindable(e),
      both: (e) => new Both(e),
      callable: (e) => callable(e),
      keyed: (e) => e.withKey(undefined),
      getter: (e) => ({ get [toElement]() {
        return () => e;
      } }),
      proto: (e) => Object.create(bindable(e)),
    };
    const VALUES = {
      plain: (v) => v,
      bind: (v) => createBind(v),
      bindable: (v) => bindable(createBind(v)),
      callable: (v) => callable(createBind(v)),
      keyed: (v) => createBind(v).withKey(undefined),
    };

    // ---------- pieces ----------
    const Logged = createComponent(function Logged({ name, child }) {
      this.useEffect(() => (log.push(`+${name}`), () => log.push(`-${name}`)), []);
      const [n] = this.useState(name);
      return html`<dt>${n}</dt><${child}>`;
    });
    const Pass = createComponent(function Pass({ child }) {
      return child;
    });
    const item = {
      a: () => html`<a></a>`,
      b: () => html`<b>B</b>`,
      c: () => Logged({ name: 'c' }),
      d: () => Logged({ name: 'd', child: html`<hr>` }),
      k: () => html`<a>k</a>`.withKey('k'),
      l: () => html`<a>l</a>`.withKey('l'),
      n: () => null,
      f: () => [html`<i></i>`, html`<b>B</b>`],
    };
    const place = {
      root: (v) => v,
      hole: (v) => html`<u><${v}></u>`,
      first: (v) => html`<${v}><hr>`,
      last: (v) => html`<hr><${v}>`,
      middle: (v) => [html`<em></em>`, v, html`<s></s>`],
      component: (v) => Pass({ child: v }),
      wrapped: (v) => [Logged({ name: 'w', child: v }), html`<s></s>`],
      svg: (v) => svg`<g><${v}></g>`,
      nested: (v) => [[v], [html`<s></s>`]],
    };
    const PLACES = Object.keys(place);

    async function play(values, roots = 1) {
      host.reset();
      log = [];
      misuse = null;
      const env = makeEnv();
      const root = new DOMRoot(env.container, new Runtime(adapter));
      const known = new Map();
      const got = [];
      const look = () => {
        const ids = [];
        const walk = (n) => {
          for (let m = n.firstChild; m !== null; m = m.nextSibling) {
            if (!known.has(m)) known.set(m, known.size);
            ids.push(known.get(m));
            walk(m);
          }
        };
        const text = [env.container, ...env.portals].map((c) => (walk(c), ser(c))).join('|');
        got.push(`${text} ${ids} ${log.splice(0)}`);
      };
      for (const make of values) {
        const h = root.render(make(env), { flushSync: true });
        await drain();
        await h.finished;
        ctx.count('transitions');
        look();
      }
      const h = root.unmount({ flushSync: true });
      await drain();
      await h.finished;
      look();
      return got;
    }
    const plainCache = new Map();
    async function compare(key, values, plain) {
      let want = plainCache.get(key);
      if (want === undefined) {
        want = await play(plain);
        for (const g of want) ctx.outcome(g);
        if (plainCache.size < 30000) plainCache.set(key, want);
      }
      const got = await play(values);
      if (misuse !== null) return misuse;
      for (const [i, g] of got.entries()) if (g !== want[i]) return `after render #${i + 1}\n got ${g}\nwant ${want[i]}`;
    }

    // ---------- lists ----------
    const CONTENTS = ['', 'a', 'ab', 'ba', 'acb', 'kl', 'lk', 'kal', 'n', 'anb', 'f', 'afc', 'dc'];
    function* lists() {
      const forms = Object.keys(LISTS);
      for (const p of PLACES) {
        for (const a of CONTENTS) {
          for (const b of CONTENTS) {
            for (const [i, f] of forms.entries()) {
              // every form to and from the plain one, and (thorough) to every other
              if (T) for (const g of forms) yield [p, a, f, b, g];
              else {
                yield [p, a, 'array', b, f];
                if (i > 0) yield [p, a, f, b, forms[1 + (i % (forms.length - 1))]];
              }
            }
          }
        }
      }
    }
    const listOf = (content) => [...content].map((c) => item[c]());
    await ctx.space('lists', lists(), ([p, a, f, b, g]) =>
      compare(
        `L ${p} ${a} ${b}`,
        [() => place[p](LISTS[f](listOf(a))), () => place[p](LISTS[g](listOf(b))), () => place[p](LISTS[f](listOf(a)))],
        [() => place[p](listOf(a)), () => place[p](listOf(b)), () => place[p](listOf(a))],
      ),
    );

    // ---------- elements ----------
    const SINGLE = {
      a: () => item.a(),
      b: () => item.b(),
      c: () => item.c(),
      d: () => item.d(),
      p: (env) => createPortal(item.b(), env.portals[0]),
      q: (env) => createPortal(item.c(), env.portals[1]),
      f: () => createFragment([item.a(), item.c()]),
      w: () => Pass({ child: item.b() }),
      x: () => html`<u><${item.c()}></u><${item.a()}>`,
    };
    function* elements() {
      for (const p of PLACES) for (const a of Object.keys(SINGLE)) for (const b of Object.keys(SINGLE)) for (const f of Object.keys(ELEMENTS)) for (const g of Object.keys(ELEMENTS)) yield [p, a, f, b, g];
    }
    await ctx.space('elements', elements(), ([p, a, f, b, g]) =>
      compare(
        `E ${p} ${a} ${b}`,
        [(env) => place[p](ELEMENTS[f](SINGLE[a](env))), (env) => place[p](ELEMENTS[g](SINGLE[b](env)))],
        [(env) => place[p](SINGLE[a](env)), (env) => place[p](SINGLE[b](env))],
      ),
    );

    // ---------- bindings ----------
    const events = [0, 1].map((i) => () => log.push(`event ${i}`));
    const refs = [0, 1].map((i) => (e) => (log.push(`ref ${i} ${e.localName}`), () => log.push(`unref ${i}`)));
    const BINDINGS = {
      attribute: [(v) => html`<p id=${v}></p>`, ['x', 1, true, null, undefined, '']],
      class: [(v) => html`<p class=${v}></p>`, ['x y', { x: true }, { y: true, x: false }, null]],
      style: [(v) => html`<p style=${v}></p>`, ['color: red', { color: 'blue' }, { width: '1px' }, null]],
      property: [(v) => html`<p .title=${v}></p>`, ['x', 'y', 1, '']],
      live: [(v) => html`<input $value=${v}>`, ['x', 'y', '']],
      text: [(v) => html`<p>${v}</p>`, ['x', 1, null, undefined, true, '']],
      mixed: [(v) => html`<p>a${v}b${v}</p>`, ['x', 0, null]],
      textarea: [(v) => html`<textarea>${v}</textarea>`, ['x', 0, null]],
      textual: [(v) => B.text`a${v}b`, ['x', 0, null]],
      event: [(v) => html`<button @click=${v}></button>`, [events[0], events[1], null, undefined]],
      ref: [(v) => html`<p ${v}></p>`, [refs[0], refs[1], null, undefined]],
      child: [(v) => html`<p><${v}></p>`, [null, undefined, 'x', 1]],
    };
    function* bindings() {
      for (const [k, [, vs]] of Object.entries(BINDINGS)) for (const a of vs.keys()) for (const b of vs.keys()) for (const f of Object.keys(VALUES)) for (const g of Object.keys(VALUES)) for (const p of T ? PLACES : ['root', 'component', 'middle']) yield [p, k, a, f, b, g];
    }
    await ctx.space('bindings', bindings(), ([p, k, a, f, b, g]) => {
      const [make, vs] = BINDINGS[k];
      const fire = (env) => {
        const e = env.container.querySelector('button');
        e?.dispatchEvent(new window.Event('click'));
        const c = env.container.querySelector('input');
        if (c !== null) log.push(`value ${c.value}`);
        const t = env.container.querySelector('p');
        if (t !== null) log.push(`title ${t.title}`);
      };
      const seq = (F, G) => [
        () => place[p](make(F(vs[a]))),
        (env) => (fire(env), place[p](make(G(vs[b])))),
        (env) => (fire(env), place[p](make(F(vs[a])))),
        (env) => (fire(env), null),
      ];
      return compare(`B ${p} ${k} ${a} ${b}`, seq(VALUES[f], VALUES[g]), seq(VALUES.plain, VALUES.plain));
    });

    // ---------- reused elements ----------
    const V = makeVocabulary(B, () => ({ g: (name, child) => Logged({ name, child }) }));
    function* reuse() {
      const M = [...medium(), ['g', 'x', ['a']], ['f', ['g', 'x', ['a']], ['g', 'x', ['a']]], ['g', 'x', ['g', 'x', ['a']]]];
      for (const c of T ? Object.keys(CONTEXTS) : ['root', 'sib', 'nest']) for (const [i, a] of M.entries()) for (const [j, b] of M.entries()) if (T || (i + 2 * j) % 5 === 0 || a?.[0] === 'g' || b?.[0] === 'g') yield [c, a, b, a];
      const S = [['a'], ['c', ['a']], ['f', ['a'], ['a']], ['w', ['a']], ['g', 'x', ['a']], ['f', ['g', 'x', ['a']], ['c', ['g', 'x', ['a']]]], null, ['o', 0, ['g', 'x', ['a']]]];
      for (const a of S) for (const b of S) for (const d of S) yield ['double', a, b, d];
    }
    const contexts = { ...CONTEXTS, double: (x) => ['f', x, ['w', x], ['c', x]] };
    await ctx.space('reuse', reuse(), ([c, ...trees]) => {
      const specs = trees.map((t) => contexts[c](t));
      const shared = new Map();
      return compare(
        `R ${JSON.stringify(specs)}`,
        specs.map((s) => (env) => V.build(s, Object.assign(env, { shared }))),
        specs.map((s) => (env) => V.build(s, env)),
      );
    });

    // ---------- several roots ----------
    // Operations on two roots: render element i (one object for all), unmount.
    const SHARED = [['f', ['a'], ['g', 'x', ['b']]], ['g', 'x', ['c', ['a']]], ['w', ['f', ['a'], ['b']]], ['y', ['g', 'z', null]]];
    function* roots() {
      const ops = [];
      for (const r of [0, 1]) for (const i of [...SHARED.keys(), -1]) ops.push([r, i]);
      const go = function* (prefix, n) {
        if (prefix.length > 0) yield prefix;
        if (n > 0) for (const op of ops) yield* go([...prefix, op], n - 1);
      };
      for (const same of [true, false]) for (const w of go([], T ? 5 : 4)) yield [same, w];
    }
    await ctx.space('roots', roots(), async ([same, word]) => {
      host.reset();
      log = [];
      const shared = new Map();
      const runtime = new Runtime(adapter);
      const envs = [makeEnv(), makeEnv()].map((env) => ({ ...env, shared }));
      const rs = envs.map((e) => new DOMRoot(e.container, same ? runtime : new Runtime(new DOMAdapter(document))));
      const shown = [-1, -1];
      const active = [0, 0];
      for (const [n, [r, i]] of word.entries()) {
        const before = ser(envs[1 - r].container);
        const nodes = [...envs[1 - r].container.childNodes];
        const h = i < 0 ? rs[r].unmount({ flushSync: true }) : rs[r].render(V.build(SHARED[i], envs[r]), { flushSync: true });
        await drain();
        await h.finished;
        ctx.count('transitions');
        shown[r] = i;
        const want = i < 0 ? '' : (plainCache.get(`S${i}`) ?? (await fresh(i)));
        const got = ser(envs[r].container);
        if (got !== want) return `root ${r} after step ${n + 1} shows ${got} instead of ${want}`;
        if (ser(envs[1 - r].container) !== before || nodes.some((x, j) => envs[1 - r].container.childNodes[j] !== x)) return `step ${n + 1} on root ${r} changed the other root`;
        for (const l of log.splice(0)) active[r] += l[0] === '+' ? 1 : -1;
        const effects = shown[r] < 0 ? 0 : JSON.stringify(SHARED[shown[r]]).split('"g"').length - 1;
        if (active[r] !== effects) return `root ${r} has ${active[r]} active effects after step ${n + 1} instead of ${effects}`;
        ctx.outcome(`${shown} ${got}`);
      }
    });
    async function fresh(i) {
      const env = makeEnv();
      const root = new DOMRoot(env.container, new Runtime(adapter));
      const saved = log;
      log = [];
      const h = root.render(V.build(SHARED[i], env), { flushSync: true });
      await drain();
      await h.finished;
      log = saved;
      const r = ser(env.container);
      plainCache.set(`S${i}`, r);
      return r;
    }
    ctx.count('states', ctx.distinctSet.size);
    ctx.sample(['lists', 'root', 'ab', 'array', 'ba', 'generator']);
  },
};
