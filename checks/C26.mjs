// C26 The same in every build and environment: differential over builds,
// containers, documents and optional features of the host.
import * as path from 'node:path';
import { makeVocabulary, ser } from '../lib/scene.mjs';
import { words } from '../lib/explore.mjs';
import { medium } from './C01.mjs';

const ENVS = {
  base: {},
  production: { production: true },
  attached: { attached: true },
  move: { move: true, attached: true },
  moveDetached: { move: true },
  fragment: { container: 'fragment' },
  moveFragment: { container: 'fragment', move: true },
  shadow: { container: 'shadow', attached: true },
  moveShadow: { container: 'shadow', attached: true, move: true, production: true },
  svg: { container: 'svg', move: true, attached: true },
  document: { document: 'other', attached: true },
  content: { content: true, production: true },
  named: { named: true, move: true, attached: true },
  plain: { mode: 'fallback', idle: false, production: true },
};

const KINDS = {
  element: (k) => ['i', k],
  two: (k) => ['f', ['i', k], ['b']],
  nested: (k) => ['h', ['i', k]],
  trailing: (k) => ['y', ['f', ['i', k], ['a']]],
  form: (k) => ['m', ['i', k]],
  component: (k) => ['g', k, ['i', k]],
  empty: (k) => ['g', k, k % 2 ? ['f'] : null],
  portal: (k) => ['o', 0, ['i', k]],
};

// The names of the form controls, and values of the bindings.
const CONTROLS = ['remove', 'before', 'after', 'append', 'children', 'name', 'title', 'replaceWith', 'id'];
const BINDINGS = [
  ['v', 0], ['v', 1], ['v', 2], ['v', 3],
];

function* arrangements(keys, max) {
  yield [];
  function* go(prefix) {
    for (const k of keys) {
      if (prefix.includes(k)) continue;
      const next = [...prefix, k];
      yield next;
      if (next.length < max) yield* go(next);
    }
  }
  yield* go([]);
}

export default {
  id: 'C26',
  needs: ['library', 'production'],
  rule: 'an item is a history of trees, lists or updates; it runs in every environment, and documents, the nodes kept, effects, events and outcomes are compared after every step with those in the base environment; distinct outcomes are distinct documents',
  assumptions: ['Element.moveBefore and DocumentFragment.moveBefore are emulated with the validity checks of the DOM standard', 'named properties of forms are emulated for the listed names'],
  async run(ctx) {
    const { dom, scratch } = ctx;
    const { host, drain } = dom;
    const T = ctx.thorough;
    const w = globalThis.jsdomWindow;
    const { Element, DocumentFragment, CharacterData, Node, DOMException, HTMLFormElement } = w;

    // https://dom.spec.whatwg.org/#dom-parentnode-movebefore
    function moveFunction(Interface) {
      return function moveBefore(node, child) {
        if (!(this instanceof Interface)) throw new TypeError('Illegal invocation');
        const fail = (name) => {
          throw new DOMException('State-preserving atomic move cannot be performed', name);
        };
        if (node.getRootNode({ composed: true }) !== this.getRootNode({ composed: true })) fail('HierarchyRequestError');
        if (node.contains(this)) fail('HierarchyRequestError');
        if (child !== null && child.parentNode !== this) fail('NotFoundError');
        if (!(node instanceof Element) && !(node instanceof CharacterData)) fail('HierarchyRequestError');
        Node.prototype.insertBefore.call(this, node, child === node ? node.nextSibling : child);
      };
    }
    const MOVE = [[Element, moveFunction(Element)], [DocumentFragment, moveFunction(DocumentFragment)]];
    function setMove(on) {
      for (const [I, f] of MOVE) {
        if (on) Object.defineProperty(I.prototype, 'moveBefore', { value: f, configurable: true, writable: true, enumerable: true });
        else delete I.prototype.moveBefore;
      }
    }
    // https://html.spec.whatwg.org/#dom-form-nameditem (for a few names)
    let depth = 0;
    function setNamed(on) {
      for (const name of CONTROLS) {
        if (!on) {
          delete HTMLFormElement.prototype[name];
          continue;
        }
        let proto = HTMLFormElement.prototype;
        let inherited;
        while (proto !== null && (inherited = Object.getOwnPropertyDescriptor(proto, name)) === undefined) proto = Object.getPrototypeOf(proto);
        if (inherited === undefined) continue;
        if (proto === HTMLFormElement.prototype) continue; // own names are rendered anyway
        Object.defineProperty(HTMLFormElement.prototype, name, {
          configurable: true,
          get() {
            if (depth++ === 0) {
              try {
                for (const e of this.getElementsByTagName('input')) if (e.getAttribute('name') === name) return e;
              } finally {
                depth--;
              }
            } else depth--;
            return inherited.get !== undefined ? inherited.get.call(this) : inherited.value;
          },
          set(value) {
            inherited.set?.call(this, value);
          },
        });
      }
    }

    const load = async (file, tag) => import(`${path.join(scratch, file)}?${tag}`);
    const LIBS = { base: ctx.B, production: await load('barebind.prod.mjs', 'base') };
    setMove(true);
    LIBS.baseMove = await load('barebind.mjs', 'move');
    LIBS.productionMove = await load('barebind.prod.mjs', 'move');
    setMove(false);

    let log;
    const VALUES = [
      { id: 'x', cls: { a: true, 'b c': true }, style: { color: 'red', '--Y': '1' }, prop: 1, live: 'p', on: 1, ref: 1, text: 'T' },
      { id: null, cls: ['c', null], style: { color: null, width: '1px' }, prop: { a: 1 }, live: 'q', on: 0, ref: 2, text: 0 },
      { id: true, cls: 'd', style: 'height: 2px', prop: undefined, live: '', on: 2, ref: 0, text: null },
      { id: 0, cls: null, style: null, prop: 1, live: 'p', on: 1, ref: 1, text: 'T' },
    ];
    const LISTENERS = [null, () => log.push('event 1'), { handleEvent: () => log.push('event 2'), once: false }];
    const REFS = [null, (e) => (log.push(`bind 1 ${e.localName}`), () => log.push('cleanup 1')), (e) => (log.push(`bind 2 ${e.localName}`), undefined)];

    function makeTemplates(B) {
      const { html, createComponent } = B;
      const Logged = createComponent(function Logged({ name, child }) {
        this.useEffect(() => (log.push(`effect ${name}`), () => log.push(`uneffect ${name}`)), []);
        const ref = this.useRef(name);
        this.useEffect(() => (log.push(`every ${ref.current}`), () => log.push(`unevery ${name}`)));
        return child;
      });
      const Compared = createComponent(
        function Compared({ n, child }) {
          this.useEffect(() => void log.push(`rendered ${n}`));
          return child;
        },
        { arePropsEqual: (a, b) => a.n === b.n },
      );
      return {
        q: (n, child) => Compared({ n, child }),
        i: (k) => html`<i id=${k}>${k}</i>`,
        g: (name, child) => Logged({ name, child }),
        m: (c) => html`<form><input name="remove"><input name="before"><input name="children"><input name="append"><${c}></form>`,
        M: (c) => html`<form><input name="after"><${c}><input name="before"><input name="title"></form><${c}>`,
        v: (i) => {
          const v = VALUES[i];
          return html`<input id=${v.id} class=${v.cls} style=${v.style} .custom=${v.prop} $value=${v.live} @click=${LISTENERS[v.on]} ${REFS[v.ref]}><textarea>${v.text}</textarea>`;
        },
        S: (c) => B.svg`<g viewBox="0"><${c}></g>`,
      };
    }
    const SETUPS = {};
    for (const [name, e] of Object.entries(ENVS)) {
      const B = LIBS[(e.production ? 'production' : 'base') + (e.move ? 'Move' : '')] ?? LIBS.base;
      SETUPS[name] = { ...e, name, B, V: makeVocabulary(B, makeTemplates), other: e.document ? document.implementation.createHTMLDocument('') : null };
    }

    function enter(S) {
      host.reset(S.mode ?? 'scheduler', { idle: S.idle ?? true });
      setMove(!!S.move);
      setNamed(!!S.named);
      const doc = S.other ?? document;
      const remove = [];
      const make = (tag) => {
        let container;
        if (S.container === 'fragment') container = doc.createDocumentFragment();
        else if (S.container === 'shadow') {
          const hostElement = doc.createElement(tag);
          container = hostElement.attachShadow({ mode: 'open' });
          if (S.attached) doc.body.appendChild(hostElement), remove.push(hostElement);
        } else {
          container = S.container === 'svg' ? doc.createElementNS('http://www.w3.org/2000/svg', 'g') : doc.createElement(tag);
          if (S.attached) doc.body.appendChild(container), remove.push(container);
        }
        return container;
      };
      const env = { container: make('div'), portals: [make('section'), make('section')], doc, foreign: [] };
      if (S.content) {
        for (const c of [env.container, ...env.portals]) {
          const nodes = [doc.createElement('header'), doc.createTextNode('existing')];
          for (const n of nodes) c.appendChild(n);
          env.foreign.push([c, nodes]);
        }
      }
      env.adapter = new S.B.DOMAdapter(doc);
      env.root = new S.B.DOMRoot(env.container, new S.B.Runtime(env.adapter));
      env.leave = () => {
        for (const c of remove) c.remove();
        setMove(false);
        setNamed(false);
      };
      log = [];
      return env;
    }

    // Documents, and which of their nodes were there before.
    function observe(env, known) {
      const out = [];
      for (const c of [env.container, ...env.portals]) {
        const foreign = env.foreign.find(([x]) => x === c)?.[1] ?? [];
        for (const [i, n] of foreign.entries()) if (c.childNodes[i] !== n) throw new Error('existing content was moved or removed');
        let text = ser(c);
        if (foreign.length > 0) text = text.slice('<header></>"existing"'.length);
        const ids = [];
        const walk = (n) => {
          for (let m = n.firstChild; m !== null; m = m.nextSibling) {
            if (foreign.includes(m)) continue;
            if (m.ownerDocument !== env.doc) throw new Error('a node belongs to another document');
            if (!known.has(m)) known.set(m, known.size);
            ids.push(known.get(m));
            if (m.localName === 'input') {
              text += `{${m.value},${String(m.custom)}}`;
              if (m.hasAttribute('id') || m.className) m.dispatchEvent(new w.Event('click'));
            }
            walk(m);
          }
        };
        walk(c);
        out.push(text, ids.join());
      }
      return out.join('|') + ' ' + log.splice(0).join(', ');
    }

    async function attempt(run) {
      try {
        return await run();
      } catch (e) {
        if (process.env.VD) console.error(e, e?.cause); return `throws ${e?.constructor?.name} ${String(e?.message).split('\n')[0]}`;
      }
    }

    async function inEvery(run, faults = false) {
      let want;
      for (const S of Object.values(SETUPS)) {
        const env = enter(S);
        let got;
        try {
          got = await run(S, env);
        } finally {
          env.leave();
        }
        if (want === undefined) {
          if (!faults && got.some((g) => g.startsWith('throws'))) throw new Error(`harness: the base environment ${got.find((g) => g.startsWith('throws'))}`);
          want = got;
          for (const g of got) ctx.outcome(g);
        }
        ctx.count('transitions', got.length);
        for (const [i, g] of got.entries()) if (g !== want[i]) return `in environment "${S.name}" after step ${i + 1}:\n got ${g}\nwant ${want[i]}`;
      }
    }

    const histories = (trees) =>
      inEvery(async (S, env) => {
        const known = new Map();
        const got = [];
        const step = (schedule) =>
          attempt(async () => {
            const h = schedule();
            h.finished.catch(() => {});
            await drain();
            if (host.tasks.length > 0) await host.settle();
            await h.finished;
            return observe(env, known);
          });
        for (const tree of trees) got.push(await step(() => env.root.render(S.V.build(tree, env), { flushSync: true })));
        got.push(await step(() => env.root.unmount({ flushSync: true })));
        return got;
      });

    function* pairs() {
      const M = [...medium(), ['m', null], ['m', ['f', ['a'], ['b']]], ['M', ['a']], ['f', ['m', ['a']], ['a']], ['f', ['a'], ['M', ['f']]], ['S', ['f', ['a'], ['b']]], ['g', 1, ['a']], ['g', 2, ['f']], ['f', ['g', 1, ['a']], ['g', 2, ['b']]], ['g', 1, ['g', 2, ['a']]], ['q', 1, ['a']], ['q', 1, ['q', 1, ['b']]], ['q', 2, ['b']], ...BINDINGS, ...BINDINGS.map((v) => ['f', v, ['a']])];
      for (const [i, a] of M.entries()) for (const [j, b] of M.entries()) if (T || (i + j) % 7 === 0 || ['gmMSvq'.includes(a?.[0]), 'gmMSvq'.includes(b?.[0])].filter(Boolean).length > (i + j) % 3 / 2) yield [a,b];
      if (T) for (const a of M) for (const b of M) yield [['w', a], ['w', b]];
    }
    await ctx.space('pairs', pairs(), histories);

    function* lists() {
      const all = [...arrangements([1, 2, 3, 4], 4)];
      const small = all.filter((l) => !l.includes(4));
      for (const kind of Object.keys(KINDS)) {
        for (const a of T ? all : small) for (const b of T ? all : small) yield [kind, a, b];
        if (!T) for (const b of all) yield [kind, [1, 2, 3, 4], b];
      }
    }
    await ctx.space('lists', lists(), ([kind, ...ls]) => {
      const list = (l) => ['f', ...l.map((k) => ['k', k, KINDS[kind](k)])];
      return histories([...ls.map(list), ['f', ['b'], list(ls[0])], ['f', ['b'], list(ls[1])]]);
    });

    // Updates of a component that is a list in a list, in every priority.
    const OPTIONS = { sync: { flushSync: true }, none: {}, visible: { priority: 'user-visible' }, background: { priority: 'background' }, blocking: { priority: 'user-blocking' }, immediate: { immediate: true, flushSync: true } };
    const OPS = ['outer', 'inner1', 'inner2', 'render', 'fail'];
    function* updates() {
      const steps = [];
      for (const op of OPS) for (const o of Object.keys(OPTIONS)) steps.push([op, o]);
      for (let n = 1; n <= (T ? 3 : 2); n++) for (const word of words(steps.length, n)) yield word.map((i) => steps[i]);
    }
    const apps = new Map();
    await ctx.space('updates', updates(), (word) =>
      inEvery(async (S, env) => {
        const { B } = S;
        if (!apps.has(S.name)) {
          const inner = new Map();
          const state = {};
          const Inner = B.createComponent(function Inner({ name }) {
            const [n, setN] = this.useState(0);
            state[name] = setN;
            this.useEffect(() => (log.push(`inner ${name} ${n}`), () => log.push(`uninner ${name} ${n}`)), [n]);
            if (n < 0) throw new Error('fault');
            return Array.from({ length: 3 }, (_, i) => B.html`<i>${name} ${n}</i>`.withKey((i * (n + 1)) % 4 === 0 ? `z${i}` : (i + n) % 3));
          });
          const Outer = B.createComponent(function Outer({ order }) {
            const [n, setN] = this.useState(0);
            state.outer = setN;
            this.useEffect(() => void log.push(`outer ${n} ${order}`), [n, order]);
            const children = [1, 2].map((k) => Inner({ name: `inner${k}` }).withKey(k));
            if ((n + order) % 2) children.reverse();
            return B.html`<u><${children}></u><${n > 1 ? null : B.html`<b>${order}</b>`}>`;
          });
          apps.set(S.name, { state, Outer, inner });
        }
        const { state, Outer } = apps.get(S.name);
        const known = new Map();
        const got = [];
        let order = 0;
        const first = env.root.render(Outer({ order }), { flushSync: true });
        await drain();
        await host.settle();
        await first.finished;
        got.push(observe(env, known));
        for (const [op, o] of word) {
          got.push(
            await attempt(async () => {
              const options = OPTIONS[o];
              const h =
                op === 'render' ? env.root.render(Outer({ order: ++order }), options)
                : op === 'fail' ? state.inner2(-1, options)
                : state[op]((n) => Math.abs(n) + 1, options);
              const outcome = h.finished.then(() => 'done', (e) => String(e?.message).split('\n')[0]);
              await drain();
              await host.settle();
              return `${await outcome} ${observe(env, known)}`;
            }),
          );
        }
        return got;
      }, true),
    );
    ctx.count('states', ctx.distinctSet.size);
    ctx.sample([Object.keys(ENVS)]);
  },
};
