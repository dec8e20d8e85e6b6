// C05 Overlapping updates of a tree commit as one consistent whole.
import { Handles, interleave, LANES, ser } from '../lib/concurrency.mjs';
import { words } from '../lib/explore.mjs';

const LETTERS = 'abcdefghij';

export default {
  id: 'C05',
  rule: 'an item is a sequence of operations (state updates of a parent and its children with scheduling options, renders and unmounts of the root); every interleaving with pending host callbacks is executed; after every step the document must be the rendering of one version of the root and one state per mounted component, with no duplicated, lost or stale part; distinct outcomes are distinct document histories',
  assumptions: ['host callbacks may run in any order', 'renders and unmounts of one root use the same scheduling option within a run'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot, html, createComponent } = B;
    const adapter = new DOMAdapter(document);
    let cur;

    const items = (s) => (s.length % 2 === 0 ? [...s] : [...s].reverse()).map((ch) => html`<i>${ch}</i>`.withKey(ch));
    const use = (context, kind) => {
      const me = context.useMemo(() => {
        const me = { kind, uid: ++cur.uid, log: '', effects: 0, runs: 0 };
        cur.instances.set(me.uid, me);
        return me;
      }, []);
      const [s, set] = context.useState('');
      me.set = set;
      cur.latest[kind] = me;
      if (me.mounted && !cur.container.textContent.includes(`${kind}${me.uid}:`)) me.rendered = true;
      context.useEffect(() => {
        me.mounted = true;
        me.effects++;
        return () => {
          me.effects--;
        };
      }, [s]);
      return [me, s];
    };
    const Leaf = createComponent(function Leaf({ kind, up }) {
      const [me, s] = use(this, kind);
      const list = items(s);
      return html`<p>${`${kind}${me.uid}:${s}:${up};`}<${s.length % 3 === 1 ? html`<b><${list}></b>` : list}></p>`;
    }, { arePropsEqual: (a, b) => a.kind === b.kind && a.up === b.up });
    const List = createComponent(function List({ order, up }) {
      return [...order].map((kind) => Leaf({ kind, up }).withKey(kind));
    }, { arePropsEqual: (a, b) => a.order === b.order && a.up === b.up });
    const ORDERS = ['XY', 'YX', 'X', 'YZX'];
    const Parent = createComponent(function Parent({ v }) {
      const [me, s] = use(this, 'P');
      return html`<div>${`P${me.uid}:${s}:${v};`}<${List({ order: ORDERS[s.length % 4], up: s })}></div>`;
    }, { arePropsEqual: (a, b) => a.v === b.v });
    const App = createComponent(function App({ v }) {
      return [Parent({ v }), html`<hr>`];
    }, { arePropsEqual: (a, b) => a.v === b.v });

    // The rendering the document must show, given what it claims to show.
    function expected(text) {
      const m = [...text.matchAll(/([PXYZ])(\d+):([a-z]*):([a-z0-9]*);/g)].map((m) => ({ kind: m[1], uid: +m[2], s: m[3], up: m[4] }));
      if (m.length === 0) return { html: '', list: m };
      const P = m[0];
      const body = (s) => (s.length % 2 === 0 ? [...s] : [...s].reverse()).map((ch) => `<i>"${ch}"</>`).join('');
      let out = `<div>"P${P.uid}:${P.s}:${P.up};"`;
      for (const kind of ORDERS[P.s.length % 4]) {
        const L = m.find((e) => e.kind === kind);
        if (L === undefined) return { html: `(no ${kind})`, list: m };
        out += `<p>"${kind}${L.uid}:${L.s}:${P.s};"${L.s.length % 3 === 1 ? `<b>${body(L.s)}</>` : body(L.s)}</>`;
      }
      return { html: out + '</><hr></>', list: m };
    }

    // item: plan [[target, lane], ...]; target P X Y R(ender) U(nmount)
    async function program(plan, c) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const runtime = new Runtime(adapter);
      const root = new DOMRoot(container, runtime);
      cur = { uid: 0, instances: new Map(), latest: {}, container };
      let version = 0;
      let initial = true;
      const burst = plan[0] === 'burst'; // all operations before any host callback
      if (burst) plan = plan.slice(1);
      if (plan[0] === 'cold') {
        plan = plan.slice(1);
        initial = false;
      } else {
        root.render(App({ v: version }), { flushSync: true });
        await drain();
      }
      const handles = new Handles();
      const sys = { handler: () => (commit) => new Promise((resolve) => host.add('handler', () => { commit(); resolve(); })) };
      let history = '';
      let lastRoot = initial ? ['R', 0] : null;
      const shown = new Map();
      const onStep = () => {
        const got = ser(container, { noComments: true });
        history += got + '>';
        const { html: exp, list } = expected(container.textContent);
        if (got !== exp) return `the document is not the rendering of any single state\nshown    ${got}\nexpected ${exp}`;
        for (const e of list) {
          const me = cur.instances.get(e.uid);
          let i = 0;
          for (const ch of me.log) if (e.s[i] === ch) i++;
          if (i !== e.s.length) return `${e.kind}${e.uid} shows "${e.s}" which is not a fold of its updates "${me.log}"`;
          const before = shown.get(e.uid) ?? '';
          for (const ch of before) if (!e.s.includes(ch)) return `${e.kind}${e.uid}: update ${ch} was displayed ("${before}") and disappeared ("${e.s}")`;
          shown.set(e.uid, e.s);
        }
        for (const me of cur.instances.values()) {
          if (me.rendered) return `${me.kind}${me.uid} was rendered after it had been removed`;
          const mounted = list.some((e) => e.uid === me.uid);
          if (me.effects !== (mounted ? 1 : 0)) return `${me.kind}${me.uid} is ${mounted ? '' : 'not '}displayed but has ${me.effects} active effects`;
        }
      };
      const ops = plan.map(([target, lane], i) => () => {
        const ch = LETTERS[i];
        const o = LANES[lane](sys);
        let h;
        if (target === 'R') {
          const v = ++version;
          lastRoot = ['R', v];
          h = root.render(App({ v }), o);
        } else if (target === 'U') {
          lastRoot = ['U'];
          h = root.unmount(o);
        } else {
          const me = cur.latest[target];
          if (me === undefined) return;
          me.log += ch;
          h = me.set((s) => s + ch, o);
        }
        handles.add(h, `#${i} ${target} ${lane}`);
      });
      let m = await interleave(host, drain, c, burst ? [() => ops.forEach((op) => op())] : ops, { onStep, syncOps: (i) => i >= 0 && plan[i][1].startsWith('sync') });
      if (m !== undefined) return m;
      await drain();
      m = onStep() ?? handles.check();
      if (m !== undefined) return m;
      const { list } = expected(container.textContent);
      if (lastRoot !== null) {
        if (lastRoot[0] === 'U' && list.length > 0) return `the last root operation is unmount, the document shows ${container.textContent}`;
        if (lastRoot[0] === 'R' && list.length === 0) return 'the last root operation is render, the document is empty';
        if (lastRoot[0] === 'R' && list[0].up !== String(lastRoot[1])) return `the last rendered version is ${lastRoot[1]}, the document shows ${list[0].up}`;
      }
      for (const e of list) {
        const me = cur.instances.get(e.uid);
        if (e.s !== me.log) return `${e.kind}${e.uid}: after quiescence it shows "${e.s}", the fold of its updates is "${me.log}"`;
      }
      ctx.outcome(history);
      ctx.sample([plan, c.choices, history]);
    }

    const plans = function* (targets, lanes, n, prefix = []) {
      const alphabet = [];
      for (const t of targets) for (const l of lanes) alphabet.push([t, l]);
      for (const w of words(alphabet.length, n)) {
        const plan = w.map((i) => alphabet[i]);
        const rootLanes = new Set(plan.filter(([t]) => t === 'R' || t === 'U').map(([, l]) => l));
        if (rootLanes.size > 1) continue;
        yield [...prefix, ...plan];
      }
    };
    const T = ctx.thorough;

    // Children that re-renders skip and that come and go by themselves, in a list and in a template's holes.
    const Ghost = createComponent(function Ghost({ kind }) {
      const me = this.useMemo(() => ({ n: 0 }), []);
      const [s, set] = this.useState(0);
      me.set = set;
      this.useEffect(() => {
        cur.live.set(kind, me);
        return () => {
          if (cur.live.get(kind) === me) cur.live.delete(kind);
        };
      }, []);
      return s % 2 === 0 ? null : html`<i>${kind}${s}</i>`;
    }, { arePropsEqual: (a, b) => a.kind === b.kind });
    const GHOSTS = ['XY', 'YX', 'ZXY', 'Y', 'YZX'];
    const Attic = createComponent(function Attic({ form }) {
      const [n, set] = this.useState(0);
      cur.set = set;
      const list = [...GHOSTS[n % GHOSTS.length]].map((kind) => Ghost({ kind }).withKey(kind));
      return form === 'bare' ? list : form === 'between' ? html`<s>${n}</s><${list}><hr><${Ghost({ kind: 'Q' })}>` : html`<${Ghost({ kind: 'Q' })}><ul><${list}></ul><u>${n}</u>`;
    });
    async function ghosts([form, plan], c) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = { set: null, live: new Map() };
      root.render(Attic({ form }), { flushSync: true });
      await drain();
      let n = 0;
      const sys = { handler: () => (commit) => new Promise((resolve) => host.add('handler', () => { commit(); resolve(); })) };
      let history = '';
      const text = (e) => (e.nodeType === 3 ? e.data : [...e.childNodes].map(text).join(''));
      const onStep = () => {
        // Whatever is shown, each child is shown at most once and in an order of the list.
        const shown = [...container.querySelectorAll('i')].map((e) => text(e)[0]).filter((k) => k !== 'Q').join('');
        history += `${text(container)}>`;
        const orders = form === 'bare' ? GHOSTS : [GHOSTS[+text(container.querySelector(form === 'between' ? 's' : 'u')) % GHOSTS.length]];
        if (!orders.some((order) => [...order].filter((k) => shown.includes(k)).join('') === shown)) return `the children are shown as "${shown}"`;
        if (form !== 'bare') {
          const places = [...container.querySelectorAll('i')].map((e) => (text(e)[0] === 'Q' ? 'Q' : 'L') + (e.parentNode.localName === 'ul' ? 'u' : form === 'between' ? (e.compareDocumentPosition(container.querySelector('hr')) & 2 ? '>' : '<') : '<'));
          const good = form === 'between' ? ['Q>', 'L<'] : ['Q<', 'Lu'];
          if (places.some((p) => !good.includes(p))) return `the children are in the wrong place: ${ser(container)}`;
        }
      };
      const m = await interleave(host, drain, c, plan.map(([t, lane]) => () => {
        const me = cur.live.get(t);
        if (t === 'P') n++;
        else if (me === undefined) return;
        else me.n++;
        (me?.set ?? cur.set)((v) => v + 1, LANES[lane](sys));
      }), { onStep, syncOps: (i) => i >= 0 && plan[i][1].startsWith('sync') });
      if (m !== undefined) return m;
      await drain();
      const late = onStep();
      if (late !== undefined) return late;
      const item = (kind) => {
        const count = cur.live.get(kind)?.n ?? 0;
        return count % 2 === 0 ? '' : `${kind}${count}`;
      };
      const list = [...GHOSTS[n % GHOSTS.length]].map(item).join('');
      const exp = form === 'bare' ? list : form === 'between' ? `${n}${list}${item('Q')}` : `${item('Q')}${list}${n}`;
      if (text(container) !== exp) return `the host is idle and the document shows ${text(container)}, expected ${exp}`;
      ctx.outcome(`g${form}${history}`);
      if (form !== 'bare' && +text(container.querySelector(form === 'between' ? 's' : 'u')) !== n) return 'an update of the parent is lost';
    }

    await ctx.exploreSpace('tree-2', plans(['P', 'X', 'Y', 'R', 'U'], T ? Object.keys(LANES) : ['def', 'sync', 'ub', 't0', 'h'], 2), program);
    await ctx.exploreSpace('tree-3', plans(['P', 'X', 'R', 'U'], T ? ['def', 'sync', 'ub', 't0'] : ['sync', 'ub', 't0'], 3), program);
    await ctx.exploreSpace('children-3', plans(['P', 'X', 'Y'], T ? ['def', 'sync', 'ub', 't0'] : ['def', 'ub'], 3), program);
    await ctx.exploreSpace('cold', plans(['R', 'U'], ['sync', 'ub', 't0'], T ? 4 : 3, ['cold']), program);
    await ctx.exploreSpace('burst', (function* () {
      const al = [['R', 'ub'], ['P', 'ub'], ['X', 'ub'], ['X', 't0'], ['Y', 'sync'], ['Y', 'uv']];
      for (const k of T ? [4, 5, 6, 7] : [4, 5, 6]) for (const w of words(al.length, k)) {
        const n = w.filter((i) => i === 0).length;
        if (n < 2 || n < k - 3) continue;
        yield ['burst', ...w.map((i) => al[i])];
      }
    })(), program);
    // Many updates in one queue.
    await ctx.exploreSpace('crowd', (function* () {
      for (const al of [[['R', 'ub'], ['P', 'ub'], ['X', 'ub']], [['R', 'uv'], ['P', 'ub'], ['X', 'bg']]]) for (const k of T ? [7, 8, 9, 10] : [7, 8]) for (const w of words(al.length, k)) {
        const n = w.filter((i) => i === 0).length;
        if (n < 2 || (k === 9 && n > 4) || (k === 10 && n > 3)) continue;
        yield ['burst', ...w.map((i) => al[i])];
      }
    })(), program, { bound: 0 });
    const ghostPlans = function* (forms, targets, lanes, k) {
      const al = [];
      for (const t of targets) for (const l of lanes) al.push([t, l]);
      for (const form of forms) for (const w of words(al.length, k)) yield [form, w.map((i) => al[i])];
    };
    await ctx.exploreSpace('skipped-sync', ghostPlans(['bare', 'between', 'under'], ['P', 'X', 'Y', 'Q'], ['sync'], T ? 6 : 4), ghosts);
    await ctx.exploreSpace('skipped', ghostPlans(T ? ['bare', 'between', 'under'] : ['bare', 'between'], ['P', 'X', 'Y'], T ? ['sync', 'ub', 't0'] : ['ub', 't0'], 3), ghosts);
    if (T) await ctx.exploreSpace('tree-4', plans(['P', 'X', 'R', 'U'], ['ub', 't0'], 4), program);
    ctx.count('states', ctx.distinctSet.size);
  },
};
