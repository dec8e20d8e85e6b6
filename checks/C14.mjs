// C14 Provided values against a reference resolution along the actual ancestors.
import { words } from '../lib/explore.mjs';

export default {
  id: 'C14',
  rule: 'an item is a component tree with what every component provides, and a sequence of updates changing that, the tree or nothing; every component requests every class after each of its own provisions and the result is compared with the nearest provision along the components it was actually rendered under; distinct outcomes are distinct sets of resolutions',
  assumptions: ['a component skipped with equal props keeps the provisions with which it was last reached'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host } = dom;
    const { html, createComponent, createPortal, Runtime, DOMAdapter, DOMRoot } = B;
    const T = ctx.thorough;
    const adapter = new DOMAdapter();
    Error.stackTraceLimit = 1; // unresolved requests are frequent
    const DEFAULT = { default: true };
    class A {}
    class A2 extends A {}
    class D {
      static getDefault() {
        return DEFAULT;
      }
    }
    class D2 extends D {}
    class N {}
    class U {
      static getDefault = undefined;
    }
    class Z {
      static getDefault() {
        return undefined;
      }
    }
    const CLASSES = { A, A2, D, D2, N, U, Z };
    const ALL = Object.keys(CLASSES);
    const PROGS = [[], ['A'], ['A2'], ['A', 'A2'], ['A2', 'A'], ['D'], ['D2', 'N'], ['Z', 'A', 'A'], ['A', 'A2', 'A']];
    const portal = document.createElement('section');

    // The oracle: a record per rendering of a component, linked to the record
    // of the rendering that produced it.
    const resolve = (rec, name) => {
      for (let r = rec; r !== null; r = r.parent) {
        const hit = r.provided.findLast((x) => x instanceof CLASSES[name]);
        if (hit !== undefined) return hit;
      }
      if (name.startsWith('D')) return DEFAULT;
      if (name === 'Z') return undefined;
      return name;
    };
    const ask = (context, name) => {
      try {
        return context.inject(CLASSES[name]);
      } catch (e) {
        return e instanceof ReferenceError && e.message.startsWith(`${name} `) ? name : e;
      }
    };
    let S;
    // A hook object and a hook function provide as well as the component itself.
    const Providing = (x) => ({ onUse: (context) => context.provide(x) });
    function body(context, { node, link }) {
      const [, force] = context.useState({});
      S.update[node] = (options) => force({}, options);
      const rec = { provided: [], parent: link };
      S.renders++;
      const check = (when) => {
        for (const name of ALL) {
          const got = ask(context, name);
          const exp = resolve(rec, name);
          S.resolutions++;
          S.log += exp === DEFAULT ? 'd' : typeof exp === 'string' ? '-' : exp === undefined ? 'u' : `${exp.node}${exp.n}`;
          if (got !== exp) S.problem ??= `component ${node} requesting ${name} ${when} resolves to ${describe(got)}, expected ${describe(exp)}`;
        }
        S.log += ' ';
      };
      check('at first');
      for (const [i, name] of PROGS[S.progs[node]].entries()) {
        const x = new CLASSES[name]();
        x.node = node;
        x.n = ++S.n;
        if (i === 0) context.provide(x);
        else if (i === 1) context.use(Providing(x));
        else context.use((c) => c.provide(x));
        rec.provided.push(x);
        check(`after providing ${i + 1}`);
      }
      const kids = S.children(node).map((k) => Comp[S.memo[k] ? 'memo' : 'plain']({ node: k, link: rec }).withKey(k));
      switch (S.kinds[node]) {
        case 'direct':
          return kids.length === 1 ? kids[0] : kids;
        case 'list':
          return html`<ul><${kids}></ul>`;
        case 'holes':
          return html`<p>${node}</p><${kids[0]}><i><${kids[1]}></i><${kids.slice(2)}>`;
        case 'portal':
          return html`<b><${createPortal(kids, portal)}></b>`;
      }
    }
    const describe = (x) => (x === DEFAULT ? 'the default' : typeof x === 'string' ? 'an error' : x instanceof Error ? `a wrong error (${x})` : x === undefined ? 'undefined' : `${x.constructor.name} ${x.n} of component ${x.node}`);
    const Comp = {
      plain: createComponent(function Plain(props) {
        return body(this, props);
      }),
      memo: createComponent(
        function Memo(props) {
          return body(this, props);
        },
        { arePropsEqual: (a, b) => a.node === b.node },
      ),
    };

    // Shapes: parents of the components 1.., and how each renders its children.
    // Component 'e' is an extra child added later below some component.
    const SHAPES = [
      [[0, 1], ['direct', 'direct', 'direct', 'direct']],
      [[0, 1], ['holes', 'list', 'direct', 'direct']],
      [[0, 0], ['holes', 'direct', 'direct', 'direct']],
      [[0, 0], ['list', 'direct', 'holes', 'direct']],
      [[0, 1], ['portal', 'direct', 'direct', 'direct']],
      [[0, 0], ['direct', 'portal', 'portal', 'direct']],
    ];
    const SHAPES4 = [
      [[0, 1, 1], ['direct', 'list', 'direct', 'direct', 'direct']],
      [[0, 0, 2], ['holes', 'direct', 'direct', 'direct', 'direct']],
      [[0, 1, 2], ['list', 'direct', 'holes', 'direct', 'direct']],
    ];
    const OPTS = { sync: { flushSync: true }, fast: { priority: 'user-blocking' }, slow: { priority: 'background' }, later: { transition: 1 } };
    async function run([shape, progs, memo, actions, together]) {
      host.reset('scheduler');
      portal.replaceChildren();
      const [parents, kinds] = shape;
      const n = progs.length;
      S = { update: {}, renders: 0, resolutions: 0, log: '', problem: undefined, n: 0, progs: [...progs, 1], memo: [...memo, false], kinds, extra: -1, drop: -1 };
      S.children = (node) => [...(S.extra === node ? [n] : []), ...parents.flatMap((p, i) => (p === node && S.drop !== i + 1 ? [i + 1] : []))];
      const runtime = new Runtime(adapter);
      const c1 = document.createElement('div');
      const c2 = document.createElement('div');
      const top = () => Comp.plain({ node: 0, link: null });
      const other = createComponent(function Other() {
        for (const name of ALL) if (ask(this, name) !== resolve({ provided: [], parent: null }, name)) S.problem ??= `another root sees ${name}`;
        return 'other';
      });
      const root1 = new DOMRoot(c1, runtime);
      const root2 = new DOMRoot(c2, runtime);
      let error;
      const watch = (h) => h.finished.catch((e) => (error ??= e));
      watch(root1.render(top(), { flushSync: true }));
      watch(root2.render(other({}), {}));
      await host.settle();
      for (const [i, [kind, node, arg]] of actions.entries()) {
        const options = OPTS[together?.[i]];
        if (kind === 'set') S.progs[node] = arg;
        if (kind === 'extra') S.extra = S.extra === node ? -1 : node;
        if (kind === 'drop') S.drop = S.drop === node ? -1 : node;
        if (kind === 'root') watch(root1.render(top(), options ?? {}));
        else watch(S.update[kind === 'drop' ? parents[node - 1] : node](options ?? { priority: arg === 1 ? 'background' : 'user-blocking' }));
        if (kind === 'set' && arg === 4) watch(root2.render(other({}), {}));
        // Updates made together overlap: only the synchronous ones are rendered at once.
        if (together === undefined || i === actions.length - 1) await host.settle();
        else await Promise.resolve();
        if (S.problem) break;
      }
      ctx.count('transitions', S.renders);
      ctx.count('states', S.resolutions);
      ctx.outcome(S.log);
      if (error !== undefined) return `an update failed: ${error.stack} ${error.cause?.stack}`;
      return S.problem;
    }
    const actionsFor = (n, sets) => {
      const out = [['root', 0, 0]];
      for (let i = 0; i < n; i++) {
        out.push(['self', i, 0], ['extra', i, 0]);
        if (i > 0) out.push(['drop', i, 0]);
        for (const p of sets) out.push(['set', i, p]);
      }
      return out;
    };
    await ctx.space('three-components', (function* () {
      const P = T ? PROGS.length : 5;
      const acts = actionsFor(3, T ? [0, 1, 4] : [0, 4]);
      for (const [s, shape] of SHAPES.entries()) for (const progs of words(P, 3)) for (const memo of [[false, false, false], [false, true, false], [false, true, true]]) {
        if (!T && memo[1] && s > 2) continue;
        for (const a of acts) for (const b of acts) if (T || s < 3 || a[0] !== 'set' || b[0] !== 'set') yield [shape, progs, memo, [a, b]];
      }
    })(), run);
    await ctx.space('provisions', (function* () {
      for (const shape of SHAPES) for (const progs of words(PROGS.length, 3)) for (const i of [0, 1, 2]) for (let p = 0; p < PROGS.length; p++) yield [shape, progs, [false, false, false], [['set', i, p], ['self', 2, 0], ['extra', 2, 0]]];
    })(), run);
    await ctx.space('four-components', (function* () {
      const acts = actionsFor(4, [4]);
      for (const shape of SHAPES4) for (const progs of words(T ? 5 : 3, 4)) for (const memo of [[false, false, false, false], [false, true, false, true]]) for (const a of acts) for (const b of acts) yield [shape, progs, memo, [a, b]];
    })(), run);
    await ctx.space('overlapping', (function* () {
      const acts = actionsFor(3, [0, 4]).filter(([kind]) => kind !== 'drop');
      const pairs = [['slow', 'sync'], ['slow', 'fast'], ['later', 'slow']];
      for (const shape of T ? SHAPES : SHAPES.slice(0, 4)) for (const progs of words(T ? 5 : 3, 3)) for (const memo of [[false, false, false], [false, true, false]]) for (const a of acts) for (const b of acts) for (const pair of pairs) yield [shape, progs, memo, [a, b, ['self', 2, 0]], [...pair, pair[1]]];
    })(), run);
    if (T) await ctx.space('three-updates', (function* () {
      const acts = actionsFor(3, [0, 4]);
      for (const shape of SHAPES.slice(0, 4)) for (const progs of words(3, 3)) for (const memo of [[false, false, false], [false, true, false]]) for (const a of acts) for (const b of acts) for (const c of acts) yield [shape, progs, memo, [a, b, c]];
    })(), run);
  },
};
