// C07 A failing render rejects its update and leaves the document as it was.
import { interleave, LANES, ser } from '../lib/concurrency.mjs';
import { words } from '../lib/explore.mjs';

export default {
  id: 'C07',
  rule: 'an item is a history of root renders and state updates in which one update fails: an error is thrown at one chosen component render (at its start, its end, in a props comparison, a reducer, a template or a memo) or effect; the run is compared with the same run without the failed update (or with a harmless value in place of the failing one; document, node identity, instances, effect log), and every handle must settle; distinct outcomes are distinct observations',
  assumptions: ['errors are thrown while rendering, by an effect setup or cleanup or while writing a binding', 'a state action dispatched by a failed update stays dispatched'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot, html, createComponent, createFragment } = B;
    const adapter = new DOMAdapter(document);
    let cur;
    class Boom extends Error {}
    class Ctx {
      constructor(v) {
        this.v = v;
      }
    }
    const site = (kind, id) => {
      const f = cur.fault;
      if (f === null || f.kind !== kind) return;
      if (f.n-- === 0) {
        cur.thrownAt = id;
        throw new Boom(`${kind} of ${id}`);
      }
      cur.sites++;
    };
    const make = (name, options) => createComponent({ [name](props) {
      site('start', name);
      const me = this.useMemo(() => ({ id: props.id, born: cur.step, active: [] }), []);
      const [s, set] = this.useReducer((s, a) => {
        site('reducer', name);
        return s + a;
      }, '');
      me.set = set;
      if (name === 'E') this.provide(new Ctx(props.v + s));
      const seen = this.inject(Ctx).v;
      this.useMemo(() => site('memo', name), [props.v]);
      const effect = (i, deps) => this.useEffect(() => {
        cur.log.push(`+${props.id}${i}:${props.v}${s}@${me.born}`);
        site('setup', name);
        me.active[i] = (me.active[i] ?? 0) + 1;
        return () => {
          cur.log.push(`-${props.id}${i}:${props.v}${s}@${me.born}`);
          me.active[i]--;
          site('cleanup', name);
        };
      }, deps);
      effect(0, [props.v, s]);
      effect(1, []);
      const r = html`<p id=${props.id} .me=${me}>${`${name}${props.v}${s}/${seen}`}<${props.child}></p>`;
      site('end', name);
      return r;
    } }[name], options);
    const E = make('E');
    const D = make('D');
    const M = make('M', { arePropsEqual: (a, b) => {
      site('compare', 'M');
      return a.v === b.v && a.id === b.id;
    } });
    const Root = createComponent(function Root({ child }) {
      this.provide(new Ctx('-'));
      return child;
    });
    const bad = () => {
      // a template the adapter rejects
      return cur.fault?.kind === 'template' && cur.fault.n-- === 0 ? html`<p ${1} ${2}=${3}></p>` : html`<hr>`;
    };
    const build = (t) => {
      if (t === null) return null;
      const [op, ...r] = t;
      switch (op) {
        case 'E':
        case 'D':
        case 'M':
          return { E, D, M }[op]({ id: r[0], v: r[1], child: build(r[2] ?? null) });
        case 'w':
          return html`<i><${build(r[0])}></i>`;
        case 'l':
          return createFragment(r.map((t) => build(t).withKey(t[1])));
        case 't':
          return [bad(), build(r[0])];
      }
    };
    const e = (id, v, c) => ['E', id, v, c];
    const TREES = [
      null,
      e('a', 0), e('a', 1), ['D', 'a', 0],
      e('a', 0, ['M', 'b', 0]), e('a', 1, ['M', 'b', 0]), e('a', 1, ['M', 'b', 1]),
      e('a', 0, e('b', 0)), e('a', 1, e('b', 0)), e('a', 1, ['w', e('b', 1)]),
      ['l', e('a', 0), e('b', 0)], ['l', e('b', 0), e('a', 0)], ['l', e('b', 1), ['D', 'c', 0], e('a', 1)], ['l', e('c', 0)], ['l', ['M', 'a', 0, e('x', 0)], e('b', 1), e('c', 0)],
      e('r', 0, ['l', e('a', 0), ['M', 'b', 0], e('c', 0)]), e('r', 1, ['l', e('c', 0), ['M', 'b', 0], e('d', 0)]), e('r', 0, ['l', ['M', 'b', 1], e('a', 1)]),
      ['t', e('a', 0)], ['t', e('a', 1)],
    ];
    const RENDER_FAULTS = ['start', 'end', 'memo', 'compare', 'reducer', 'template'];

    // Performs the steps; a step is ['R', tree] | ['S', id, letter] | ['U'], with an optional fault.
    async function perform(steps, mark) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = { log: [], step: 0, fault: null, sites: 0 };
      const out = [];
      let markCount = 0;
      for (const [i, { op, fault }] of steps.entries()) {
        if (op === null) continue;
        cur.step = i;
        cur.log = [];
        cur.sites = 0;
        cur.thrownAt = undefined;
        cur.fault = fault === undefined ? null : { ...fault };
        const before = { html: ser(container), nodes: [...container.querySelectorAll('*')] };
        let handle;
        try {
          if (op[0] === 'R') handle = root.render(Root({ child: build(TREES[op[1]]) }), { flushSync: true });
          else if (op[0] === 'U') handle = root.unmount({ flushSync: true });
          else if (container.querySelector('#' + op[1]) === null) continue;
          else handle = container.querySelector('#' + op[1]).me.set(op[2], { flushSync: true });
        } catch (error) {
          // a reducer may be called already by the dispatch
          handle = { finished: Promise.reject(error), undispatched: true };
          handle.finished.catch(() => {});
        }
        let state = 'pending';
        let error;
        handle.finished.then(() => (state = 'resolved'), (e) => {
          state = 'rejected';
          error = e;
        });
        await drain();
        out[i] = {
          state, error, before, undispatched: handle.undispatched,
          html: ser(container), nodes: [...container.querySelectorAll('*')],
          marks: [...container.querySelectorAll('*')].map((n) => n.mark ?? 'new').join(),
          log: cur.log, thrownAt: cur.thrownAt, sites: cur.sites, kind: fault?.kind,
          active: [...container.querySelectorAll('p')].map((p) => `${p.id}@${p.me.born}:${p.me.active}`).join(),
        };
        cur.fault = null;
        for (const n of container.querySelectorAll('*')) n.mark ??= `m${i}.${markCount++}`;
      }
      return out;
    }

    // item: [steps, index of the failing step, fault]
    async function compare([ops, at, fault]) {
      const steps = ops.map((op, i) => ({ op, fault: i === at ? fault : undefined }));
      const got = await perform(steps);
      const f = got[at];
      if (f === undefined || (f.thrownAt === undefined && f.kind !== 'template')) return; // the fault site is not reached
      if (f.kind === 'template' && f.state === 'resolved') return;
      ctx.count('faults');
      if (f.state !== 'rejected') return `the failing update is ${f.state}`;
      const inCommit = fault.kind === 'setup' || fault.kind === 'cleanup';
      if (fault.kind !== 'template') {
        let cause = f.error;
        const chain = [];
        while (cause instanceof Error && !(cause instanceof Boom) && chain.length < 10) {
          chain.push(cause.message);
          cause = cause.cause;
        }
        if (!(cause instanceof Boom)) return `the update was rejected with ${f.error?.stack}, not with the error thrown`;
        if ((fault.kind === 'start' || fault.kind === 'end' || fault.kind === 'memo') && !chain.join('\n').includes(f.thrownAt)) return `the error does not name the component ${f.thrownAt}: ${chain.join('|')}`;
      }
      if (!inCommit) {
        if (f.html !== f.before.html) return `the failed render changed the document\nbefore ${f.before.html}\nafter  ${f.html}`;
        if (f.nodes.some((n, i) => n !== f.before.nodes[i])) return 'the failed render replaced nodes';
        if (f.log.length > 0) return `the failed render ran effects: ${f.log.join(' ')}`;
      }
      // the run without the failed update
      const failedRender = ops[at][0] === 'R' || f.undispatched;
      const ref = await perform(ops.map((op, i) => ({ op: i === at && failedRender && !inCommit ? null : op })));
      for (let i = at + 1; i < ops.length; i++) {
        const g = got[i];
        const r = ref[i];
        if (g === undefined || r === undefined) continue;
        if (g.state !== 'resolved') return `step ${i} after the failure is ${g.state}: ${g.error?.stack} ${g.error?.cause?.stack ?? ''}`;
        if (ops[i][0] === 'R' || failedRender) {
          // A memoized component whose own update failed is rendered when it
          // is reached next, and then sees the current context.
          const ctxless = (html) => (failedRender ? html : html.replace(/(M\w+)\/\w+/g, '$1'));
          if (ctxless(g.html) !== ctxless(r.html)) return `step ${i}: the document differs from that of the run without failure\ngot      ${g.html}\nexpected ${r.html}`;
        }
        if (failedRender && !inCommit) {
          if (g.marks !== r.marks) return `step ${i}: node identity differs from that of the run without the failed update\ngot      ${g.marks}\nexpected ${r.marks}\n${g.html}`;
          if (g.log.join() !== r.log.join()) return `step ${i}: effects differ from those of the run without the failed update\ngot      ${g.log.join(' ')}\nexpected ${r.log.join(' ')}`;
        }
        if (!inCommit && (failedRender || ops[i][0] === 'R')) {
          const strip = (s) => (failedRender ? s : s);
          if (strip(g.active) !== strip(r.active)) return `step ${i}: active effects are ${g.active}, in the run without the failed update ${r.active}`;
        }
      }
      ctx.outcome(JSON.stringify(got.map((g) => [g.state, g.html, g.log])));
      ctx.sample([ops, at, fault]);
    }

    const T = ctx.thorough;
    const R = TREES.map((_, i) => ['R', i]);
    const SETS = ['a', 'b', 'c'].map((id) => ['S', id, 'x']);
    const MAXN = 6;
    const faults = (kinds, max = MAXN) => kinds.flatMap((kind) => Array.from({ length: kind === 'template' ? 1 : max }, (_, n) => ({ kind, n })));
    await ctx.space('first-render', (function* () {
      for (const b of R) for (const f of faults(RENDER_FAULTS)) for (const c of R) yield [[b, c, ['U']], 0, f];
    })(), compare);
    await ctx.space('root-render', (function* () {
      for (const a of R) for (const b of R) for (const f of faults(T ? RENDER_FAULTS : ['end', 'start', 'compare', 'template'], T ? MAXN : 4)) for (const c of [...R, ...SETS]) yield [[a, b, c], 1, f];
    })(), compare);
    await ctx.space('root-render-then-two', (function* () {
      const some = T ? R : R.filter((_, i) => [2, 5, 6, 8, 11, 12, 16, 17].includes(i));
      for (const a of some) for (const b of some) for (const n of [0, 1, 2, 3]) for (const c of SETS) for (const d of some) yield [[a, b, c, d], 1, { kind: 'end', n }];
    })(), compare);
    await ctx.space('state-update', (function* () {
      for (const a of R) for (const s of SETS) for (const f of faults(RENDER_FAULTS, 4)) for (const c of R) yield [[a, s, c, ['U']], 1, f];
    })(), compare);
    await ctx.space('effects', (function* () {
      for (const a of R) for (const b of [...R, ...SETS, ['U']]) for (const f of faults(['setup', 'cleanup'], 4)) for (const c of R) yield [[a, b, c, ['U']], 1, f];
    })(), compare);

    // Retrying a state update that failed must show it.
    const Retry = createComponent(function Retry() {
      const [s, set] = this.useState(0);
      cur.set = set;
      if (cur.failing) throw new Boom('retry');
      return html`<p>${s}</p>`;
    });
    await ctx.space('retry', words(3, 3), async (values) => {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = { failing: false };
      root.render(Retry({}), { flushSync: true });
      await drain();
      for (const [i, v] of values.entries()) {
        cur.failing = i !== 2;
        const handle = cur.set(v, { flushSync: true });
        let state = 'pending';
        handle.finished.then(() => (state = 'resolved'), () => (state = 'rejected'));
        await drain();
        if (state === 'pending') return `set(${v}) never settled`;
        if (state === 'resolved' && container.textContent !== String(v)) return `set(${v}) resolved but the document shows ${container.textContent}`;
      }
      ctx.outcome(JSON.stringify(values) + container.textContent);
    });

    // ---- failures while writing bindings: the run is compared with the same
    // run with a harmless value in place of the failing one.
    const once = () => {
      let thrown = false;
      return (value) => {
        if (thrown) return value;
        thrown = true;
        throw new Boom('binding');
      };
    };
    for (const [name, guard] of [['xp', 'PropertyFails'], ['xl', 'LiveFails']]) {
      Object.defineProperty(Element.prototype, name, {
        configurable: true,
        get() {
          return this[`_${name}`] ?? null;
        },
        set(v) {
          if (v?.fails === guard) throw new Boom('binding');
          this[`_${name}`] = v;
        },
      });
    }
    const BINDING_FAULTS = {
      attr: () => ({ toString: () => { throw new Boom('binding'); } }),
      cls: () => { const t = once(); return { get k() { return t(false); } }; },
      sty: () => { const t = once(); return { get color() { return t(null); } }; },
      prop: () => ({ fails: 'PropertyFails' }),
      live: () => ({ fails: 'LiveFails' }),
      event: () => 5,
      ref: () => () => { throw new Boom('binding'); },
      value: () => 'not a reference',
      text: () => ({ toString: () => { throw new Boom('binding'); } }),
      child: () => ({ toString: () => { throw new Boom('binding'); } }),
      unref: null, // a cleanup that fails is set by the step before
    };
    const PLACE = { value: 'ref', unref: 'ref' };
    const Bound = createComponent(function Bound({ id, v, child, bad }) {
      const me = this.useMemo(() => ({ active: 0 }), []);
      const [s, set] = this.useState(0);
      me.set = set;
      const x = `${v}${s}`;
      this.useEffect(() => {
        cur.log.push(`+${id}:${x}`);
        me.active++;
        return () => {
          cur.log.push(`-${id}:${x}`);
          me.active--;
        };
      }, [x]);
      const values = {
        attr: x, cls: { [`c${x}`]: true, d: true }, sty: { color: s + v.length % 2 ? 'red' : 'blue' }, prop: x, live: x,
        event: () => cur.log.push(`click ${id}:${x}`),
        ref: (el) => {
          cur.log.push(`ref ${id}:${x}`);
          return () => {
            cur.log.push(`unref ${id}:${x}`);
            if (bad?.unref && bad.s === s && cur.faulty) throw new Boom('binding');
          };
        },
        text: x, child: x,
      };
      if (bad?.unref && bad.s === s) {
        // The harmless run logs the same; only the error is missing.
      } else if (bad && bad.s === s) {
        const place = PLACE[bad.kind] ?? bad.kind;
        values[place] = cur.faulty ? (cur.values[`${bad.kind} ${id}`] ??= BINDING_FAULTS[bad.kind]()) : null;
      }
      return html`<p id=${id} title=${values.attr} class=${values.cls} style=${values.sty} .xp=${values.prop} $xl=${values.live} @click=${values.event} ${values.ref} .me=${me}><u>${values.text}</u><b><${values.child}></b><${child}></p>`;
    });
    // Trees: nested and listed; `bad` is put on the component named in the step.
    const boundTree = (shape, v, bad, at) => {
      const b = (id, child = null) => Bound({ id, v, child, bad: id === at ? bad : null });
      switch (shape) {
        case 'none':
          return null;
        case 'one':
          return b('a');
        case 'chain':
          return b('a', b('b', b('c')));
        case 'list':
          return b('a', createFragment([b('b').withKey(1), b('c').withKey(2), b('d').withKey(3)]));
        case 'turn':
          return b('a', createFragment([b('e').withKey(4), b('d').withKey(3), b('b').withKey(1), b('c').withKey(2)]));
        case 'less':
          return b('a', createFragment([b('d').withKey(3)]));
        case 'pair':
          return [b('a'), html`<i><${b('b')}></i>`];
      }
    };
    const NAMES = ['id', 'title', 'class', 'style'];
    async function performBindings({ before, shape, after, at, kind, own, lane }, faulty) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = { log: [], faulty, values: {} };
      const out = [];
      const lanes = lane === 'sync' ? { flushSync: true } : { transition: 0 };
      const find = () => container.querySelector(`#${at}`);
      const bad = { kind, unref: kind === 'unref', s: own ? 1 : 0 };
      const steps = [
        () => root.render(boundTree(before, 'x', kind === 'unref' || own ? bad : null, at), lanes),
        () => (own ? find()?.me.set(1, lanes) : root.render(boundTree(shape, 'y', kind === 'unref' ? null : bad, at), lanes)),
      ];
      if (own && kind === 'unref') steps.push(() => find()?.me.set(2, lanes));
      const failing = steps.length - 1;
      steps.push(() => root.render(boundTree(after, 'z', null, at), lanes), () => root.unmount(lanes));
      for (const step of steps) {
        const handle = step();
        if (handle === undefined) return undefined;
        const r = { state: 'pending' };
        handle.finished.then(() => (r.state = 'resolved'), (e) => {
          r.state = 'rejected';
          r.error = e;
        });
        await host.settle();
        r.nodes = [...container.querySelectorAll('p')].map((p) => ({
          id: p.id, title: p.title, class: p.className, style: p.getAttribute('style'), prop: p._xp, live: p._xl,
          text: p.children[0].textContent, child: p.children[1].textContent, parent: p.parentNode.id, active: p.me?.active,
        }));
        r.log = cur.log;
        cur.log = [];
        for (const p of container.querySelectorAll('p')) p.dispatchEvent(new Event('click'));
        r.clicks = cur.log;
        cur.log = [];
        r.html = ser(container);
        out.push(r);
      }
      out.failing = failing;
      return out;
    }
    const FIELD = { attr: 'title', cls: 'class', sty: 'style', prop: 'prop', live: 'live', text: 'text', child: 'child' };
    async function bindings(item) {
      const [before, shape, after, at, kind, own, lane] = item;
      const spec = { before, shape, after, at, kind, own, lane };
      const got = await performBindings(spec, true);
      if (got === undefined) return;
      const f = got[got.failing];
      const ref = await performBindings(spec, false);
      const reached = kind === 'unref' ? got.slice(0, got.failing + 1).some((r) => r.log.some((l) => l.startsWith(`ref ${at}`))) && f.log.some((l) => l.startsWith(`unref ${at}`)) : f.nodes.some((n) => n.id === at);
      if (reached) {
        ctx.count('faults');
        if (f.state !== 'rejected') return `the failing update is ${f.state}`;
        let cause = f.error;
        while (cause?.cause) cause = cause.cause;
        if (!(cause instanceof Boom) && kind !== 'event' && kind !== 'value') return `the update was rejected with ${f.error?.stack}, not with the error thrown`;
      }
      for (let i = 0; i < got.length; i++) {
        const g = got[i];
        const r = ref[i];
        if (!(reached && i === got.failing) && !(kind === 'unref' && g.state === 'rejected' && i > got.failing && false) && g.state !== 'resolved') return `step ${i} is ${g.state}: ${g.error?.stack} ${g.error?.cause?.stack ?? ''}`;
        const place = PLACE[kind] ?? kind;
        const clean = (nodes) => JSON.stringify(i !== got.failing ? nodes : nodes.map((n) => (n.id === at ? { ...n, [FIELD[place] ?? '-']: '?' } : n)));
        if (clean(g.nodes) !== clean(r.nodes)) return `step ${i}: the document differs from that of the run without failure\ngot      ${clean(g.nodes)}\nexpected ${clean(r.nodes)}`;
        if (g.log.join() !== r.log.join()) return `step ${i}: effects and references differ from those of the run without failure\ngot      ${g.log.join(' ')}\nexpected ${r.log.join(' ')}`;
        const clicks = (l) => l.filter((c) => i !== got.failing || place !== 'event' || !c.startsWith(`click ${at}`)).join();
        if (clicks(g.clicks) !== clicks(r.clicks)) return `step ${i}: listeners invoked are ${g.clicks}, without failure ${r.clicks}`;
      }
      if (got.at(-1).html !== '') return `the container holds ${got.at(-1).html} after unmounting`;
      ctx.outcome(JSON.stringify([kind, got.map((g) => [g.state, g.log.length, g.nodes.length])]));
    }
    await ctx.space('bindings', (function* () {
      const shapes = ['none', 'one', 'chain', 'list', 'turn', 'less', 'pair'];
      for (const before of shapes) for (const shape of shapes) for (const after of T ? shapes : ['one', 'chain', 'turn']) for (const at of ['a', 'b', 'c', 'd', 'e']) for (const kind of Object.keys(BINDING_FAULTS)) for (const lane of T ? ['sync', 'tr'] : ['sync']) {
        yield [before, shape, after, at, kind, false, lane];
        if (before === shape) yield [before, shape, after, at, kind, true, lane];
      }
    })(), bindings);

    // ---- failures among overlapping updates
    const LETTERS = 'abcdefgh';
    const Cell = createComponent(function Cell({ name, up }) {
      const [s, set] = this.useState('');
      cur.set[name] = set;
      if (cur.fail.has(s.at(-1)) && s.length > 0) {
        if (cur.once) cur.fail.delete(s.at(-1));
        throw new Boom(name);
      }
      return html`<p>${`${name}:${s}:${up};`}<${[...s].reverse().map((ch) => html`<i>${ch}</i>`.withKey(ch))}></p>`;
    });
    const Top = createComponent(function Top({ v }) {
      const [s, set] = this.useState('');
      cur.set.P = set;
      return html`<div>${`P:${s}:${v};`}<${(s.length % 2 ? ['Y', 'X'] : ['X', 'Y']).map((name) => Cell({ name, up: s }).withKey(name))}></div>`;
    });
    async function overlapping([once, failing, plan], c) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = { set: {}, fail: new Set(LETTERS[failing]), once };
      root.render(Top({ v: 0 }), { flushSync: true });
      await drain();
      const recs = [];
      const watch = (handle, label) => {
        const r = { label, state: 'pending' };
        recs.push(r);
        handle.finished.then(() => (r.state = 'resolved'), (e) => {
          r.state = 'rejected';
          r.error = e;
        });
        return r;
      };
      let history = '';
      const onStep = () => {
        const text = container.textContent;
        const m = [...text.matchAll(/([PXY]):([a-z]*):([a-z0-9]*);/g)].map((m) => ({ name: m[1], s: m[2], up: m[3] }));
        const [P] = m;
        let exp = `<div>"P:${P.s}:${P.up};"`;
        for (const name of P.s.length % 2 ? ['Y', 'X'] : ['X', 'Y']) {
          const L = m.find((e) => e.name === name);
          exp += `<p>"${name}:${L?.s}:${P.s};"${[...(L?.s ?? '')].reverse().map((ch) => `<i>"${ch}"</>`).join('')}</>`;
        }
        exp += '</>';
        const got = ser(container, { noComments: true });
        history += got + '>';
        if (got !== exp) return `the document is not the rendering of any single state\nshown    ${got}\nexpected ${exp}`;
      };
      const ops = plan.map(([t, lane], i) => () => {
        watch(cur.set[t]((s) => s + LETTERS[i], LANES[lane]()), `#${i} ${t} ${lane}`);
      });
      let m = await interleave(host, drain, c, ops, { onStep, syncOps: (i) => i >= 0 && plan[i][1].startsWith('sync') });
      if (m !== undefined) return m;
      for (const r of recs) {
        if (r.state === 'pending') return `${r.label} never settled`;
        if (r.state === 'rejected' && !(r.error?.cause instanceof Boom)) return `${r.label} rejected with ${r.error?.stack} ${r.error?.cause?.stack ?? ''}`;
      }
      cur.fail.clear();
      const last = watch(root.render(Top({ v: 9 }), LANES.t0()), 'final render');
      await host.settle();
      m = onStep();
      if (m !== undefined) return `after a final render: ${m}`;
      if (last.state !== 'resolved' || !container.textContent.includes(':9;')) return `a final render is ${last.state} and shows ${container.textContent}: ${last.error?.stack} ${last.error?.cause?.stack ?? ''}`;
      ctx.outcome(history);
    }
    await ctx.exploreSpace('overlapping', (function* () {
      const al = [];
      for (const t of ['P', 'X', 'Y']) for (const l of T ? ['sync', 'ub', 't0', 'def'] : ['sync', 'ub', 't0']) al.push([t, l]);
      for (const k of [2, 3]) for (const w of words(al.length, k)) {
        const plan = w.map((i) => al[i]);
        for (let f = 0; f < k; f++) {
          if (plan[f][0] === 'P') continue;
          if (k === 3 && !T && plan.filter(([, l]) => l === 't0').length > 1) continue;
          for (const once of [true, false]) yield [once, f, plan];
        }
      }
    })(), overlapping);
    // Several components updated by one batch, some of which fail in their commit.
    const BITS = ['ok', 'setup', 'cleanup', 'both', 'listener', 'element', 'style'];
    const Part = createComponent(function Part({ id }) {
      const [s, set] = this.useState('ok');
      cur.sets[id] = set;
      this.useEffect(() => {
        cur.log.push(`+${id}${s}`);
        if (s === 'setup' || s === 'both') throw new Boom(`${id} ${s}`);
        return () => {
          cur.log.push(`-${id}${s}`);
          if (cur.failing[id]) throw new Boom(`${id} cleanup`);
        };
      }, [s]);
      return html`<p>${`${id}${s};`}<i @click=${s === 'listener' ? 1 : null} ${s === 'element' ? 1 : null} style=${s === 'style' ? { color: { toString() { throw new Boom(`${id} style`); } } } : null}></i><b>${s}</b></p>`;
    });
    await ctx.space('batches', (function* () {
      const n = T ? 4 : 3;
      for (const lane of ['sync', 'ub', 't0', 'h']) for (let k = 1; k <= n; k++) for (const w of words(BITS.length, k)) if (k < 4 || w[0] > 0) yield [lane, w.map((i) => BITS[i])];
    })(), async ([lane, bits]) => {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = { sets: [], log: [], failing: {} };
      const sys = { handler: () => async (commit) => commit() };
      let bad;
      root.render(html`<div><${bits.map((_, id) => Part({ id }))}></div>`, { flushSync: true }).finished.catch((e) => (bad = e));
      await host.settle();
      if (bad) return `the first render fails: ${bad.stack}`;
      cur.log = [];
      for (const [id, b] of bits.entries()) cur.failing[id] = b === 'cleanup' || b === 'both';
      const states = bits.map(() => 'pending');
      // With a handler every update is a batch of its own.
      for (const [id, b] of bits.entries()) cur.sets[id](`${b}`, { ...LANES[lane](sys), areStatesEqual: () => false }).finished.then(() => (states[id] = 'resolved'), (e) => (states[id] = e));
      await host.settle();
      cur.failing = {};
      const fails = (b) => b !== 'ok';
      for (const [id, b] of bits.entries()) {
        const r = states[id];
        if (r === 'pending') return `update ${id} (${b}) never settles`;
        if (fails(b) && (r === 'resolved' || !(r instanceof Error))) return `update ${id}, whose ${b} fails, is ${r}`;
        if (!bits.some(fails) && r !== 'resolved') return `nothing fails and update ${id} is rejected with ${r.stack}`;
        if (!container.children[0].children[id].textContent.startsWith(`${id}${b};`) || !container.children[0].children[id].textContent.endsWith(b)) return `update ${id} (${b}) is not shown: ${container.textContent}`;
        const exp = b === 'ok' ? [] : [`-${id}ok`, `+${id}${b}`];
        const got = cur.log.filter((x) => x[1] === `${id}`);
        if (got.join() !== exp.join()) return `the effects of ${id} (${b}) are ${got}, expected ${exp}`;
      }
      // Everything works again.
      const last = bits.map(() => 'pending');
      for (const id of bits.keys()) cur.sets[id](`end`, { flushSync: true }).finished.then(() => (last[id] = 'resolved'), (e) => (last[id] = e));
      await host.settle();
      for (const [id, r] of last.entries()) if (r !== 'resolved') return `the update of ${id} after the failures is ${r?.stack ?? r} ${r?.cause?.stack ?? ''}`;
      if (container.textContent !== bits.map((_, id) => `${id}end;end`).join('')) return `after the failures the document shows ${container.textContent}`;
      ctx.count('transitions', bits.length * 2);
      ctx.outcome(`${bits}${states.map((r) => (r === 'resolved' ? 'r' : 'x'))}`);
    });
    ctx.count('states', ctx.distinctSet.size);
  },
};
