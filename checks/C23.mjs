// C23 Unaffected components are not rendered and unaffected nodes not touched.
import { arrangements } from '../lib/explore.mjs';
import { makeVocabulary } from '../lib/scene.mjs';
import { CONTEXTS, medium } from './C01.mjs';

const CMP = ['is', 'shallow', 'never', 'always'];
const PASS = ['state', 'prop', 'same', 'memo', 'const'];
const SHAPES = { chain: [null, 0, 1], fork: [null, 0, 0], lift: [null, 0, 1] };
const LANE = { S: { flushSync: true }, T: { transition: 0 }, U: { priority: 'user-blocking' }, B: { priority: 'background' } };

// Operations: [[target, lane], ...]; targets 0-2 are components, R renders the
// root anew, r renders the same element again, n0-n2 set the current state,
// f0-f2 force an update, e0-e2 set a state declared equal to the current one.
function operations(T) {
  const targets = [0, 1, 2, 'R', 'r'];
  const single = targets.map((t) => [[t, 'S']]);
  const multi = [];
  for (let i = 0; i < targets.length; i++) for (let j = i + 1; j < targets.length; j++) {
    if (i === 3) continue;
    for (const [a, b] of T ? ['SS', 'ST', 'TS', 'UB', 'TT', 'SU'] : ['SS', 'ST', 'TS']) {
      multi.push([[targets[i], a], [targets[j], b]]);
      if (a === b || T) multi.push([[targets[j], a], [targets[i], b]]);
    }
  }
  const triple = [];
  for (const s of ['SSS', 'TTT', 'STS', 'TST']) triple.push([[0, s[0]], [1, s[1]], [2, s[2]]], [[2, s[0]], [1, s[1]], [0, s[2]]], [[1, s[0]], [1, s[1]], ['R', s[2]]]);
  const noop = [0, 1, 2].map((i) => [[`n${i}`, 'S']]);
  noop.push([['n1', 'S'], [2, 'S']], [['n0', 'S'], ['n2', 'T'], [1, 'T']], [['n0', 'S'], ['n1', 'S'], ['n2', 'S']]);
  const forced = [0, 1, 2].map((i) => [[`f${i}`, 'S']]);
  forced.push([['f1', 'S'], [1, 'S']], [[2, 'S'], ['f2', 'T']], [['f2', 'T'], ['f0', 'S']], [['f0', 'S'], ['f1', 'S'], ['f2', 'S']], [['R', 'S'], ['f2', 'S']], [['f1', 'T'], ['f1', 'T'], ['R', 'T']]);
  for (const i of [0, 1, 2]) forced.push([[`e${i}`, 'S']], [[`e${i}`, 'T'], [(i + 1) % 3, 'S']]);
  return { single, all: [...single, ...multi, ...triple, ...noop, ...forced] };
}

function* trees(T) {
  const cmps = T ? CMP : ['is', 'shallow', 'never'];
  for (const shape of Object.keys(SHAPES)) for (const c0 of T ? CMP : ['is', 'shallow']) for (const c1 of cmps) for (const c2 of cmps) for (const p1 of PASS) for (const p2 of PASS) yield [shape, [c0, c1, c2], [null, p1, p2]];
}

export default {
  id: 'C23',
  rule: 'an item is a tree of components with a comparison and a way of passing props each and a history of batches of updates, a template with values for its bindings and a subset of them to change, a pair of lists, or a tree rendered twice; the components rendered by every batch are compared with a reference, and every mutation record, property write and listener registration must belong to a changed binding or item; distinct outcomes are distinct logs',
  assumptions: ['MutationObserver records every change of the tree', 'style objects that are not identical may be written again', 'no rendering fails'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot, html, createComponent, createFragment, createPortal } = B;
    const T = ctx.thorough;
    const adapter = new DOMAdapter(document);

    // ---- rendered components
    let app;
    const make = (i, cmp) => {
      const options = { is: {}, shallow: { arePropsEqual: B.shallowEqual ?? ((a, b) => Object.keys(a).length === Object.keys(b).length && Object.keys(a).every((k) => Object.hasOwn(b, k) && Object.is(a[k], b[k]))) }, never: { arePropsEqual: () => false }, always: { arePropsEqual: () => true } }[cmp];
      return createComponent(function Node(props) {
        const [s, set] = this.useState(0);
        app.counts[i]++;
        app.set[i] = set;
        app.context[i] = this;
        app.state[i] = s;
        const child = (j) => {
          switch (app.pass[j]) {
            case 'state':
              return app.types[j]({ v: s });
            case 'prop':
              return app.types[j]({ v: props.v });
            case 'const':
              return app.types[j]({ v: 0 });
            case 'same':
              return (app.same[j] ??= app.types[j]({ v: 0 }));
            case 'memo': {
              return this.useMemo(() => app.types[j]({ v: s >> 1 }), [s >> 1]);
            }
          }
        };
        const text = `${i}:${s},${props.v}`;
        if (app.shape === 'lift') {
          if (i === 0) {
            const inner = child(2);
            const outer = child(1);
            // The innermost component is passed through the one in the middle.
            return html`<p>${text}</p><${Object.is(outer.props, app.same[1]?.props) ? outer : app.types[1]({ ...outer.props, child: inner })}>`;
          }
          return i === 1 ? html`<p>${text}</p><${props.child}>` : html`<p>${text}</p>`;
        }
        const children = SHAPES[app.shape].flatMap((p, j) => (p === i ? [child(j)] : []));
        return html`<p>${text}</p><${children}>`;
      }, options);
    };
    const TYPES = [0, 1, 2].map((i) => Object.fromEntries(CMP.map((c) => [c, make(i, c)])));

    // The reference: which components are rendered by a flush.
    class Model {
      constructor(shape, cmp, pass) {
        Object.assign(this, { shape, cmp, pass, state: [0, 0, 0], props: [null, null, null], memo: {}, token: 0, tokens: {} });
      }
      element(i, j, props) {
        const fresh = (v) => ({ token: ++this.token, v });
        switch (this.pass[j]) {
          case 'state':
            return fresh(this.state[i]);
          case 'prop':
            return fresh(props.v);
          case 'const':
            return fresh(0);
          case 'same':
            return (this.tokens[j] ??= fresh(0));
          case 'memo': {
            const d = this.state[i] >> 1;
            if (this.memo[j]?.d !== d) this.memo[j] = { d, el: fresh(d) };
            return this.memo[j].el;
          }
        }
      }
      apart(i, a, b) {
        switch (this.cmp[i]) {
          case 'never':
            return true;
          case 'always':
            return false;
          case 'is':
            return true;
          case 'shallow':
            return a.v !== b.v || a.child?.token !== b.child?.token || ('child' in a) !== ('child' in b);
        }
      }
      reach(i, el, pending, out) {
        const old = this.props[i];
        if (old !== null && (old.token === el.token || (!pending.has(i) && !this.apart(i, old, el)))) return;
        this.props[i] = el;
        this.render(i, pending, out);
      }
      render(i, pending, out) {
        out.push(i);
        pending.delete(i);
        const props = this.props[i];
        if (this.shape === 'lift') {
          if (i === 0) {
            const inner = this.element(0, 2, props);
            let outer = this.element(0, 1, props);
            if (outer !== this.tokens[1]) outer = { token: ++this.token, v: outer.v, child: inner };
            this.reach(1, outer, pending, out);
          } else if (i === 1 && props.child !== undefined) {
            this.reach(2, props.child, pending, out);
          }
          return;
        }
        SHAPES[this.shape].forEach((p, j) => {
          if (p === i) this.reach(j, this.element(i, j, props), pending, out);
        });
      }
    }

    async function rendered([shape, cmp, pass, ops]) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const runtime = new Runtime(adapter);
      const root = new DOMRoot(container, runtime);
      app = { shape, pass, counts: [0, 0, 0], set: [], context: [], state: [], same: {}, types: cmp.map((c, i) => TYPES[i][c]) };
      const model = new Model(shape, cmp, pass);
      const log = [];
      let flush;
      runtime.use({
        handle(update, next) {
          const before = [...app.counts];
          const r = next(update);
          (flush[update.lanes] ??= [0, 0, 0]).forEach((_, i, f) => (f[i] += app.counts[i] - before[i]));
          return r;
        },
      });
      flush = {};
      let element = app.types[0]({ v: 0 });
      root.render(element, { flushSync: true });
      await host.settle();
      const out = [];
      model.reach(0, { token: ++model.token, v: 0 }, new Set(), out);
      if (app.counts.join() !== [0, 1, 2].map((i) => out.filter((x) => x === i).length).join()) return `the first render renders ${app.counts}`;
      let version = 0;
      for (const op of ops) {
        flush = {};
        const groups = new Map(); // lanes -> {targets, root}
        const shownBefore = container.innerHTML;
        const note = (h, t) => {
          if (h.lanes === 0) return;
          const g = groups.get(h.lanes) ?? { own: [], forced: [], root: null };
          groups.set(h.lanes, g);
          if (typeof t === 'number') g.own.push(t);
          else if (typeof t === 'string') g.forced.push(Number(t[1]));
          else g.root = t;
        };
        const touched = new Set();
        for (const [t, lane] of op) {
          if (t === 'R') {
            element = app.types[0]({ v: ++version });
            note(root.render(element, LANE[lane]), { token: ++model.token, v: version });
          } else if (t === 'r') {
            note(root.render(element, LANE[lane]), model.last ?? { token: 1, v: 0 });
          } else if (typeof t === 'number') {
            // A component that has never been rendered has no state.
            if (app.set[t] !== undefined) note(app.set[t]((s) => s + 1, LANE[lane]), t);
            touched.add(t);
          } else if (t[0] === 'f') {
            const context = app.context[t[1]];
            if (context === undefined) continue;
            const h = context.forceUpdate(LANE[lane]);
            if (h.lanes === 0) return `${JSON.stringify(op)}: a forced update is not scheduled`;
            note(h, t);
          } else if (t[0] === 'e') {
            const h = app.set[t[1]]?.((s) => s + 1, { ...LANE[lane], areStatesEqual: (a, b) => a === b + 1 });
            if (h !== undefined && h.lanes !== 0) return `${JSON.stringify(op)}: setting a state equal to the current one schedules an update`;
          } else {
            const i = Number(t[1]);
            if (app.set[i] === undefined) continue;
            const h = app.set[i]((s) => s, LANE[lane]);
            if (!touched.has(i) && h.lanes !== 0) return `${JSON.stringify(op)}: setting the current state schedules an update`;
            note(h, i);
          }
          if (groups.size > 0 && t === 'R') model.last = [...groups.values()].findLast((g) => g.root !== null)?.root;
        }
        await host.settle();
        for (const key of Object.keys(flush)) {
          const lanes = Number(key);
          const g = groups.get(lanes);
          if (g === undefined) return `an update of unknown lanes is processed`;
          groups.delete(lanes);
          const pending = new Set([...g.own, ...g.forced]);
          for (const i of g.own) model.state[i]++;
          const out = [];
          if (g.root !== null) model.reach(0, g.root, pending, out);
          for (const i of [0, 1, 2]) {
            if (pending.has(i)) model.render(i, pending, out);
          }
          const want = [0, 1, 2].map((i) => out.filter((x) => x === i).length);
          ctx.count('transitions');
          log.push(want.join(''));
          if (want.join() !== flush[key].join()) return `batch ${JSON.stringify(op)}, lanes ${lanes}: components rendered ${flush[key]}, necessary ${want}`;
        }
        for (const [, g] of groups) if (g.own.length + g.forced.length > 0 || g.root !== null) return `an update of ${JSON.stringify(op)} was not processed`;
        if (log.length === 0 && container.innerHTML !== shownBefore) return 'the document changed without an update';
      }
      ctx.outcome(log.join('|'));
    }
    await ctx.space('rendered', (function* () {
      const { single, all } = operations(T);
      for (const t of trees(T)) {
        for (const a of all) yield [...t, [a]];
        for (const a of single) for (const b of T ? all : [...single, all[8], all[20], all[30]]) yield [...t, [a, b]];
      }
    })(), rendered);

    // ---- comparisons: every pair of props over two keys, every pair of lists.
    const O1 = { o: 1 };
    const ATOMS = [undefined, null, NaN, 0, -0, '', 'x', O1, { o: 1 }];
    const ABSENT = ATOMS.length;
    const KEYS = ['a', 'toString'];
    const EQUALS = { is: undefined, loose: (x, y) => x == y, typed: (x, y) => typeof x === typeof y, none: () => false };
    const same = (name, x, y) => (EQUALS[name] ?? Object.is)(x, y);
    const objects = [];
    for (const a of [...ATOMS.keys(), ABSENT]) for (const b of T ? [...ATOMS.keys(), ABSENT] : [0, 2, 6, ABSENT]) objects.push([a, b]);
    const object = (spec, order) => {
      const o = {};
      for (const k of order ? [1, 0] : [0, 1]) if (spec[k] !== ABSENT) o[KEYS[k]] = ATOMS[spec[k]];
      return o;
    };
    await ctx.space('comparisons', (function* () {
      for (const e of Object.keys(EQUALS)) for (const x of objects) for (const y of objects) yield ['props', e, x, y];
      const lists = [[], ...ATOMS.map((_, i) => [i])];
      for (let i = 0; i < ATOMS.length; i++) for (let j = 0; j < ATOMS.length; j++) lists.push([i, j]);
      lists.push([0, 0, 0], [6, 6, 6], [6, 7, 6]);
      for (const e of Object.keys(EQUALS)) for (const x of lists) for (const y of lists) yield ['lists', e, x, y];
    })(), async ([kind, e, x, y]) => {
      if (kind === 'lists') {
        const want = x.length === y.length && x.every((i, k) => same(e, ATOMS[i], ATOMS[y[k]]));
        for (const make of [(l) => l.map((i) => ATOMS[i]), (l) => ({ ...l.map((i) => ATOMS[i]), length: l.length })]) {
          const got = EQUALS[e] ? B.sequentialEqual(make(x), make(y), EQUALS[e]) : B.sequentialEqual(make(x), make(y));
          if (got !== want) return `lists ${x} and ${y} of the values compared by ${e}: ${got}`;
        }
        ctx.outcome(`${e}:${want}`);
        return;
      }
      const a = object(x, false);
      for (const order of [false, true]) {
        const b = object(y, order);
        const want = x.every((v, k) => (v === ABSENT) === (y[k] === ABSENT) && (v === ABSENT || same(e, ATOMS[v], ATOMS[y[k]])));
        const got = EQUALS[e] ? B.shallowEqual(a, b, EQUALS[e]) : B.shallowEqual(a, b);
        if (got !== want) return `props ${x} and ${y} of the values compared by ${e}: ${got}`;
        ctx.outcome(`${e}:${want}`);
        let count = 0;
        const C = createComponent(function Compared() {
          count++;
          return html`<p></p>`;
        }, { arePropsEqual: (p, q) => (EQUALS[e] ? B.shallowEqual(p, q, EQUALS[e]) : B.shallowEqual(p, q)) });
        host.reset('scheduler');
        const root = new DOMRoot(document.createElement('div'), new Runtime(adapter));
        root.render(C(a), { flushSync: true });
        await drain();
        root.render(C(b), { flushSync: true });
        await drain();
        if (count !== (want ? 1 : 2)) return `a component with props ${x}, then ${y}, compared by ${e} is rendered ${count} times`;
      }
    });

    // ---- mutations
    const records = [];
    const observer = new MutationObserver((list) => records.push(...list));
    const writes = [];
    const watch = (...nodes) => {
      observer.disconnect();
      for (const n of nodes) observer.observe(n, { attributes: true, characterData: true, childList: true, subtree: true });
      writes.length = records.length = 0;
    };
    for (const name of ['pw', 'lw']) {
      Object.defineProperty(Element.prototype, name, {
        configurable: true,
        get() {
          return this[`_${name}`];
        },
        set(v) {
          writes.push([this, `property ${name}`]);
          this[`_${name}`] = v;
        },
      });
    }
    for (const name of ['addEventListener', 'removeEventListener']) {
      const original = EventTarget.prototype[name];
      EventTarget.prototype[name] = function (...args) {
        if (this instanceof Element) writes.push([this, `${name} ${args[0]}`]);
        return original.apply(this, args);
      };
    }
    const describe = (n) => (n.nodeType === 1 ? `<${n.localName} ${n.id}>` : `${n.nodeName} ${JSON.stringify(n.data)} in <${n.parentNode?.localName} ${n.parentNode?.id}>`);
    const collect = () => {
      const out = writes.map(([n, what]) => [n, what]);
      for (const r of [...records, ...observer.takeRecords()]) {
        if (r.type === 'attributes') out.push([r.target, `attribute ${r.attributeName}`]);
        else if (r.type === 'characterData') out.push([r.target, 'data']);
        else {
          for (const n of r.removedNodes) out.push([n, 'removed']);
          for (const n of r.addedNodes) out.push([n, 'added']);
        }
      }
      writes.length = records.length = 0;
      return out;
    };

    // Bindings: every subset of the bindings of a template is changed.
    const fn = [() => {}, () => {}, { handleEvent() {} }];
    const obj = [{ a: true }, { b: true }, { color: 'red' }, { color: 'blue' }];
    const refs = [0, 1, 2].map((i) => (el) => {
      writes.push([el, `ref ${i}`]);
      return () => writes.push([el, `unref ${i}`]);
    });
    const VALUES = {
      attr: ['x', 'y', '', null, undefined, true, false, NaN, 0, -0, obj[0]],
      cls: ['x', 'y z', 'z y', null, obj[0], obj[1], ''],
      sty: ['color: red', obj[2], obj[3], null],
      prop: ['x', NaN, 0, -0, null, undefined, obj[0], obj[1]],
      live: ['x', 'y', 0, null, undefined, obj[0]],
      event: [fn[0], fn[1], fn[2], null, undefined],
      ref: [refs[0], refs[1], null, undefined],
      text: ['x', 'y', '', null, undefined, NaN, 0, obj[0]],
      child: ['x', 'y', null],
      inner: [1, 2, NaN],
      list: [1, 2, 'z'],
    };
    const Inner = createComponent(({ v }) => html`<em id="inner">${v}</em>`);
    const template = ([attr, cls, sty, prop, live, event, ref, text, child, inner, list]) => html`<div id="attr" title=${attr} lang="q"></div><div id="cls" class=${cls}></div><div id="sty" style=${sty}></div><div id="prop" .pw=${prop}></div><div id="live" $lw=${live}></div><div id="event" @click=${event}></div><div id="ref" ${ref}></div><div id="text">a${text}b</div><div id="child"><${child}></div><div><${Inner({ v: inner })}></div><ul><${[html`<li id="list">${list}</li>`, html`<li id="still">s</li>`]}></ul>`;
    const together = ([attr, cls, sty, prop, live, event, ref, text]) => html`<section id="all" title=${attr} class=${cls} style=${sty} .pw=${prop} $lw=${live} @click=${event} ${ref}>${text}</section>`;
    const NAMES = Object.keys(VALUES);
    const WHAT = { attr: /^attribute title$/, cls: /^attribute class$/, sty: /^attribute style$/, prop: /^property pw$/, live: /^property lw$/, event: /^(add|remove)EventListener click$/, ref: /^(un)?ref \d$/, text: /^data$/, child: /^data$/, inner: /^data$/, list: /^data$/ };
    const Holder = createComponent(function Holder({ initial, kind }) {
      const [values, set] = this.useState(() => initial);
      app.update = set;
      return wraps[kind](values);
    });
    const wraps = {
      all: together,
      each: template,
      nested: (v) => [html`<hr>`, [template(v)], Inner({ v: 0 })],
      portal: (v) => createPortal(template(v), app.portal),
    };
    async function bindings([kind, how, first, second, edit]) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const portal = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      app = { portal };
      const values = (ix) => NAMES.map((n, k) => VALUES[n][ix[k]]);
      const a = values(first);
      const b = values(second);
      if (how === 'state') {
        root.render(Holder({ initial: a, kind }), { flushSync: true });
        await drain();
      } else {
        root.render(wraps[kind](a), { flushSync: true });
        await drain();
      }
      const find = (id) => container.querySelector(`#${id}`) ?? portal.querySelector(`#${id}`);
      const live = find(kind === 'all' ? 'all' : 'live');
      if (edit !== undefined) live.lw = VALUES.live[edit];
      watch(container, portal);
      const current = live.lw;
      const h = how === 'state' ? app.update(() => b, { flushSync: true }) : root.render(wraps[kind](b), { flushSync: true });
      await drain();
      await h.finished;
      const got = collect();
      observer.disconnect();
      const changed = new Set(NAMES.filter((n, k) => (n === 'live' ? current !== b[k] : !Object.is(a[k], b[k]))));
      for (const [node, what] of got) {
        const owner = node.nodeType === 1 ? node : node.parentNode;
        const id = owner?.id;
        const hole = kind === 'all' ? NAMES.find((n) => WHAT[n].test(what)) : id;
        if (!changed.has(hole) || !WHAT[hole].test(what)) return `${what} of ${describe(node)} although only ${[...changed]} changed: ${JSON.stringify([kind, how, first, second])}`;
      }
      // A change is written once at most.
      const once = new Map();
      for (const [node, what] of got) {
        if (/^(property|data|attribute title)/.test(what)) {
          if (once.get(node)?.has(what)) return `${what} of ${describe(node)} is written twice`;
          once.set(node, (once.get(node) ?? new Set()).add(what));
        }
      }
      ctx.count('transitions');
      ctx.outcome(JSON.stringify(got.map(([, w]) => w)));
    }
    await ctx.space('bindings', (function* () {
      const zero = NAMES.map(() => 0);
      const kinds = Object.keys(wraps);
      // one binding, every pair of values
      for (const kind of kinds) for (const how of ['root', 'state']) for (let k = 0; k < NAMES.length; k++) for (let x = 0; x < VALUES[NAMES[k]].length; x++) for (let y = 0; y < VALUES[NAMES[k]].length; y++) yield [kind, how, zero.with(k, x), zero.with(k, y)];
      // every subset of the bindings changes
      for (const kind of kinds) for (const how of ['root', 'state']) for (let m = 0; m < 2 ** NAMES.length; m++) yield [kind, how, zero, zero.map((_, k) => (m >> k) & 1)];
      // the live value has been edited
      for (const kind of kinds) for (let e = 0; e < VALUES.live.length; e++) for (let x = 0; x < VALUES.live.length; x++) for (let y = 0; y < VALUES.live.length; y++) yield [kind, 'root', zero.with(4, x), zero.with(4, y), e];
      // two bindings, every pair of values each
      if (T) for (const kind of kinds) for (let j = 0; j < NAMES.length; j++) for (let k = j + 1; k < NAMES.length; k++) for (let a = 0; a < VALUES[NAMES[j]].length; a++) for (let b = 0; b < VALUES[NAMES[j]].length; b++) for (let x = 0; x < VALUES[NAMES[k]].length; x++) for (let y = 0; y < VALUES[NAMES[k]].length; y++) yield [kind, 'root', zero.with(j, a).with(k, x), zero.with(j, b).with(k, y)];
    })(), bindings);

    const between = (x) => html`<dt>t</dt><${x}><dd>${'d'}</dd><${[html`<dl></dl>`]}><dfn></dfn>`;
    // The same tree rendered again changes nothing.
    const V = makeVocabulary(B);
    await ctx.space('again', (function* () {
      const M = medium();
      for (const c of [...Object.keys(CONTEXTS), 'between']) for (const a of M) yield [c, a, null];
      for (const c of T ? [...Object.keys(CONTEXTS), 'between'] : ['sib', 'between']) for (const a of M) for (const b of M) yield [c, a, b];
    })(), async ([c, first, second]) => {
      host.reset();
      const container = document.createElement('div');
      container.innerHTML = '<header>h</header>';
      const portals = [document.createElement('section'), document.createElement('section')];
      const env = { container, portals };
      const root = new DOMRoot(container, new Runtime(adapter));
      const show = async (spec) => {
        const h = root.render(c === 'between' ? between(V.build(spec, env)) : V.build(CONTEXTS[c](spec), env), { flushSync: true });
        await drain();
        await h.finished;
      };
      await show(first);
      container.append('footer');
      const foreign = new Set([container.firstChild, container.firstChild.firstChild, container.lastChild]);
      // Nodes of the context are not touched by a change of the tree in it.
      const still = new Set(foreign);
      if (c === 'sib') {
        const all = [...container.childNodes].filter((n) => !foreign.has(n) && n.nodeType !== 8);
        const [before, after] = [all[0], all.slice(-2)];
        for (const n of [before, ...after]) for (const d of [n, ...n.childNodes]) still.add(d);
      } else if (c === 'between') {
        for (const n of container.querySelectorAll('dt, dd, dl, dfn')) for (const d of [n, ...n.childNodes]) still.add(d);
      }
      const places = [];
      const walk = (n) => {
        for (const child of n.childNodes) {
          places.push([child, n]);
          walk(child);
        }
      };
      for (const n of [container, ...portals]) walk(n);
      watch(container, ...portals);
      await show(second ?? first);
      const got = collect();
      observer.disconnect();
      ctx.count('transitions');
      for (const [node, what] of got) {
        if (second === null) return `rendering ${JSON.stringify(first)} again in ${c}: ${what} ${describe(node)}`;
        if (still.has(node)) return `${JSON.stringify(first)} to ${JSON.stringify(second)} in ${c}: ${what} ${describe(node)}`;
      }
      const times = new Map();
      const displayed = (n) => [container, ...portals].some((c) => c.contains(n));
      for (const [node, parent] of places) {
        if (!displayed(parent) && node.parentNode !== parent) return `${JSON.stringify(first)} to ${JSON.stringify(second)} in ${c}: ${describe(node)} is taken out of ${describe(parent)}, which is removed itself`;
      }
      for (const [node, what] of got) {
        if (what !== 'added' && what !== 'removed') continue;
        const n = (times.get(`${what}`) ?? new Map());
        times.set(what, n);
        n.set(node, (n.get(node) ?? 0) + 1);
        if (n.get(node) > 1) return `${JSON.stringify(first)} to ${JSON.stringify(second)} in ${c}: ${what} ${describe(node)} ${n.get(node)} times`;
      }
      ctx.outcome(JSON.stringify(got.map(([n, w]) => w + describe(n))));
    });

    // Lists: items that stay in order stay in place.
    const Row = createComponent(function Row({ k }) {
      const [s] = this.useState(0);
      return html`<p id=${k}><span>${k}</span></p><q>${s}</q>`;
    });
    const rows = {
      e: (k) => html`<li id=${k}><span>${k}</span></li>`,
      m: (k) => html`<p id=${k}></p><q>${k}</q>`,
      c: (k) => Row({ k }),
      f: (k) => createFragment([html`<li id=${k}></li>`, Row({ k })]),
    };
    const keyed = (el, k) => el.withKey(k);
    const frames = {
      root: (l) => l,
      mid: (l) => html`<hr><ul><${html`<li>first</li>`}><${l}><${[html`<li>last</li>`]}></ul><hr>`,
      sib: (l) => [html`<header></header>`, l, html`<footer></footer>`],
    };
    const listCase = async ([frame, kinds, a, b, how]) => {
      host.reset();
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      const kindOf = (k) => kinds[(k - 1) % kinds.length];
      const build = (keys) => frames[frame](keys.map((k) => keyed(rows[kindOf(k)](k), k)));
      const show = async (keys) => {
        const h = root.render(build(keys), { flushSync: true });
        await drain();
        await h.finished;
      };
      await show(a);
      // The nodes of an item follow each other; the first has the key as its id.
      const owner = new Map();
      const mark = () => {
        const it = [...container.querySelectorAll('[id]')].filter((n) => n.id !== '');
        for (const n of it) {
          const k = Number(n.id);
          const nodes = { e: 1, m: 2, c: 2, f: n.localName === 'li' ? 1 : 2 }[kindOf(k)];
          let cur = n;
          for (let i = 0; i < nodes; i++, cur = cur.nextSibling) owner.set(cur, k);
        }
      };
      mark();
      watch(container);
      await show(b);
      const got = collect();
      observer.disconnect();
      ctx.count('transitions');
      const stay = a.filter((k) => b.includes(k));
      const now = b.filter((k) => a.includes(k));
      let head = 0;
      while (head < stay.length && stay[head] === now[head]) head++;
      let tail = 0;
      while (tail < stay.length - head && stay.at(-1 - tail) === now.at(-1 - tail)) tail++;
      const fixed = new Set([...stay.slice(0, head), ...stay.slice(stay.length - tail)]);
      mark();
      const times = new Map();
      for (const [node, what] of got) {
        if (what !== 'added' && what !== 'removed') return `${what} of ${describe(node)}`;
        const k = owner.get(node);
        if (k === undefined) return `${what} ${describe(node)}, which belongs to no item`;
        if (fixed.has(k)) return `item ${k} is ${what} although it stays in place`;
        const t = `${what}`;
        if (!times.has(node)) times.set(node, {});
        times.get(node)[t] = (times.get(node)[t] ?? 0) + 1;
        if (times.get(node)[t] > 1) return `a node of item ${k} is ${what} more than once`;
        if (!stay.includes(k) && times.get(node).added && times.get(node).removed) return `a node of item ${k} is added and removed`;
      }
      ctx.outcome(JSON.stringify(got.map(([n, w]) => w[0] + owner.get(n))));
    };
    await ctx.space('lists', (function* () {
      const A = [...arrangements([1, 2, 3, 4])];
      for (const frame of Object.keys(frames)) for (const kinds of T ? ['e', 'm', 'c', 'f', 'emcf', 'fcme'] : ['emcf', 'c']) for (const a of A) for (const b of A) yield [frame, kinds, a, b];
      const A5 = [...arrangements([1, 2, 3, 4, 5])];
      for (const a of A5) if (a.length > 2 && a.every((x, i) => x === i + 1)) for (const b of A5) yield ['mid', 'e', a, b];
      if (T) for (const a of A5) for (const b of A5) yield ['sib', 'ec', a, b];
      const A6 = [...arrangements([1, 2, 3, 4, 5, 6])].filter((b) => b.length >= (T ? 3 : 6));
      for (const b of A6) yield ['root', 'ecm', [1, 2, 3, 4, 5, 6], b];
    })(), listCase);
    ctx.count('states', ctx.distinctSet.size);
  },
};
