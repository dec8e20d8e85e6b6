// C06 Effects run exactly when their dependencies say, and are cleaned up.
import { Handles, interleave, LANES } from '../lib/concurrency.mjs';
import { words } from '../lib/explore.mjs';

const obj = {};
const DEPS = [undefined, null, [], [0], [-0], [NaN], ['0'], [0, 1], [obj]];
const changed = (a, b) => a == null || b == null || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]));

export default {
  id: 'C06',
  rule: 'an item is a history: dependency lists of the effects of one component over successive renders, a sequence of trees of components with effects rendered at one root, or a sequence of overlapping updates with every host interleaving; the effect log is compared with a reference log computed from the committed renders',
  assumptions: ['at most 3 effects per component', 'failures: one failing component, sibling, child, effect setup or cleanup per update (documents after failures: C07)'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot, html, createComponent, createFragment, createPortal } = B;
    const adapter = new DOMAdapter(document);
    let cur;

    // ---- one component, exact logs
    const Multi = createComponent(function Multi({ n, deps, cleanups }) {
      deps.forEach((d, i) => {
        this.useEffect(() => {
          cur.log.push(`+${i}@${n}${cur.container.textContent === String(n) ? '' : '!'}`);
          if (cleanups[i]) return () => cur.log.push(`-${i}@${n}`);
        }, d);
      });
      return html`<b>${n}</b>`;
    });
    async function single([depHistory, cleanups]) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = { log: [], container };
      const prev = [];
      const active = [];
      for (let n = 0; n < depHistory.length; n++) {
        const deps = depHistory[n].map((i) => DEPS[i]);
        cur.log = [];
        root.render(Multi({ n, deps, cleanups }), { flushSync: true });
        await drain();
        const expected = [];
        deps.forEach((d, i) => {
          if (n === 0 || changed(prev[i], d)) {
            if (active[i] !== undefined) expected.push(`-${i}@${active[i]}`);
            expected.push(`+${i}@${n}`);
            active[i] = cleanups[i] ? n : undefined;
          }
          prev[i] = d;
        });
        if (cur.log.join() !== expected.join()) return `render ${n}: effect log is ${cur.log.join(' ')}, expected ${expected.join(' ')}`;
      }
      cur.log = [];
      root.unmount({ flushSync: true });
      await drain();
      const expected = active.flatMap((n, i) => (n === undefined ? [] : [`-${i}@${n}`]));
      if (cur.log.slice().sort().join() !== expected.sort().join()) return `unmount: effect log is ${cur.log.join(' ')}, expected ${expected.join(' ')}`;
      ctx.outcome(JSON.stringify([depHistory, cleanups]));
      ctx.sample([depHistory, cleanups]);
    }

    // ---- failures: a history of [dependency, fault]
    const FAULTS = ['-', 'self', 'child', 'sibling', 'setup', 'cleanup'];
    const Thrower = createComponent(function Thrower({ fails }) {
      if (fails) throw new Error('fault');
      return html`<i></i>`;
    });
    const Failing = createComponent(function Failing({ n, d, fault }) {
      this.useEffect(() => {
        cur.log.push(`+${n}`);
        if (fault === 'setup') throw new Error('fault');
        return () => {
          cur.log.push(`-${n}`);
          if (fault === 'cleanup') throw new Error('fault');
        };
      }, d === 2 ? undefined : [d]);
      this.useEffect(() => {
        cur.log.push(`+c${n}`);
        return () => cur.log.push(`-c${n}`);
      }, []);
      if (fault === 'self') throw new Error('fault');
      return html`<p n=${n}><${Thrower({ fails: fault === 'child' })}></p>`;
    });
    async function failures([lane, history]) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = { log: [] };
      let mounted = -1; // the render that mounted the component
      let active = null; // { n, d } of the running effect
      let failed; // dependencies of a setup that failed
      let fails = new Set(); // renders whose cleanup fails
      for (const [n, [d, f]] of [...history, [0, 'unmount']].entries()) {
        const fault = FAULTS[f] ?? f;
        cur.log = [];
        const handle = fault === 'unmount' ? root.unmount(LANES[lane]()) : root.render([Failing({ n, d, fault }), Thrower({ fails: fault === 'sibling' })], LANES[lane]());
        let state = 'pending';
        handle.finished.then(() => (state = 'resolved'), () => (state = 'rejected'));
        await host.settle();
        const expected = [];
        let ambiguous = false;
        let rejected = false;
        if (fault === 'cleanup') fails.add(n);
        const cleanup = () => {
          if (active === null) return;
          expected.push(`-${active.n}`);
          rejected ||= fails.has(active.n);
          active = null;
        };
        if (fault === 'self' || fault === 'child' || fault === 'sibling') {
          rejected = true;
        } else if (fault === 'unmount') {
          cleanup();
          if (mounted >= 0) expected.push(`-c${mounted}`);
        } else {
          const first = mounted < 0;
          if (first || active === null || d === 2 || active.d !== d) {
            // whether a setup that failed is tried again for the same
            // dependencies is left open
            ambiguous = active === null && failed === d && d !== 2;
            cleanup();
            expected.push(`+${n}`);
            if (!ambiguous || cur.log.includes(`+${n}`)) {
              failed = fault === 'setup' ? d : undefined;
              rejected ||= fault === 'setup';
              active = fault === 'setup' ? null : { n, d };
            }
          }
          if (first) {
            mounted = n;
            expected.push(`+c${n}`);
          }
        }
        const got = cur.log.join();
        if (got !== expected.join() && !(ambiguous && got === '')) return `render ${n} (${fault}): effect log is ${got}, expected ${expected.join()}`;
        if (state !== (rejected ? 'rejected' : 'resolved')) return `render ${n} (${fault}) is ${state}`;
      }
      ctx.outcome(JSON.stringify([lane, history]));
      ctx.sample([lane, history]);
    }

    // ---- trees
    const make = (name, options) => createComponent({ [name](props) {
      const me = this.useMemo(() => {
        const me = { uid: ++cur.uid, renders: [], log: [], active: 0 };
        cur.all.set(me.uid, me);
        return me;
      }, []);
      me.renders.push(props.v);
      const setup = (i, deps) => this.useEffect(() => {
        const el = cur.find(me.uid);
        cur.log.push(['+', me.uid, i]);
        me.log.push(`+${i}:${props.v}`);
        if (el === null) me.problem = `effect ${i} of ${name} runs before its nodes are in the document`;
        else if (el.getAttribute('v') !== String(props.v)) me.problem = `effect ${i} of ${name} (${props.v}) finds a document showing ${el.getAttribute('v')}`;
        me.active++;
        return () => {
          me.active--;
          cur.log.push(['-', me.uid, i]);
          me.log.push(`-${i}:${props.v}`);
        };
      }, deps);
      setup(0, [props.v]);
      setup(1, []);
      return html`<p id=${'u' + me.uid} v=${props.v}><${props.child}></p>`;
    } }[name], options);
    const E = make('E');
    const D = make('D');
    const M = make('M', { arePropsEqual: (a, b) => a.v === b.v });
    const Plain = createComponent(function Plain({ child }) {
      return child;
    });
    const build = (t, env) => {
      if (t === null) return null;
      const [op, ...r] = t;
      switch (op) {
        case 'E':
          return E({ v: r[0], child: build(r[1] ?? null, env) });
        case 'D':
          return D({ v: r[0], child: build(r[1] ?? null, env) });
        case 'M':
          return M({ v: r[0], child: build(r[1] ?? null, env) });
        case 'P':
          return Plain({ child: build(r[0], env) });
        case 'w':
          return html`<i><${build(r[0], env)}></i>`;
        case 'o':
          return createPortal(build(r[0], env), env.portal);
        case 'l':
          return createFragment(r.map(([k, t]) => build(t, env).withKey(k)));
        case 'u':
          return r.map((t) => build(t, env));
      }
    };
    const E0 = ['E', 0], E1 = ['E', 1], D0 = ['D', 0];
    const TREES = [
      null, E0, E1, D0, ['E', 0, E0], ['E', 0, E1], ['E', 1, E0], ['E', 0, D0], ['w', E0], ['w', E1], ['P', E0], ['P', ['E', 1, E0]],
      ['M', 0, E0], ['M', 0, E1], ['M', 1, E1], ['o', E0], ['o', ['E', 1, E0]],
      ['l', ['a', E0]], ['l', ['a', E0], ['b', E1]], ['l', ['b', E1], ['a', E0]], ['l', ['b', E0]], ['l', ['a', D0], ['b', E1]], ['l', ['c', E0], ['b', E1], ['a', E1]],
      ['E', 0, ['l', ['a', E0], ['b', E0]]], ['E', 0, ['l', ['b', E0], ['a', E1]]], ['E', 1, ['l', ['b', ['E', 0, E0]]]],
      ['u', E0, E1], ['u', E1], ['u', null, E1], ['u', ['w', E0], D0],
    ];
    async function trees(history) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const portal = document.createElement('section');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = {
        uid: 0, all: new Map(), log: [],
        find: (uid) => container.querySelector(`#u${uid}`) ?? portal.querySelector(`#u${uid}`),
      };
      for (const index of [...history, 'unmount']) {
        cur.log = [];
        for (const me of cur.all.values()) {
          me.before = me.renders.length;
          me.log = [];
        }
        const handle = index === 'unmount' ? root.unmount({ flushSync: true }) : root.render(build(TREES[index], { portal }), { flushSync: true });
        await drain();
        await handle.finished;
        for (const me of cur.all.values()) {
          if (me.problem !== undefined) return me.problem;
          const mounted = cur.find(me.uid) !== null;
          const before = me.before ?? 0;
          const v0 = me.renders[before - 1];
          const v1 = me.renders.at(-1);
          let expected;
          if (before === 0) expected = mounted ? [`+0:${v1}`, `+1:${v1}`] : [];
          else if (!mounted) expected = me.gone ? [] : [`-0:${me.v0}`, `-1:${me.v1}`];
          else if (!Object.is(v0, v1)) expected = [`-0:${me.v0}`, `+0:${v1}`];
          else expected = [];
          const got = mounted ? me.log : me.log.slice().sort();
          if (got.join() !== expected.join()) return `tree ${JSON.stringify(index === 'unmount' ? index : TREES[index])}: component #${me.uid} effect log ${got.join(' ') || '(none)'}, expected ${expected.join(' ') || '(none)'}`;
          if (me.active !== (mounted ? 2 : 0)) return `component #${me.uid} has ${me.active} active effects, mounted: ${mounted}`;
          if (before === 0) me.v1 = v1;
          me.v0 = v1;
          me.gone = !mounted;
        }
        // children before parents
        const at = new Map();
        cur.log.forEach(([sign, uid], i) => {
          if (sign === '+') at.set(uid, [Math.min(i, at.get(uid)?.[0] ?? i), i]);
        });
        for (const [uid, [first]] of at) {
          for (let el = cur.find(uid)?.parentElement; el; el = el.parentElement) {
            const up = el.id?.startsWith('u') ? +el.id.slice(1) : 0;
            if (at.has(up) && at.get(up)[0] < at.get(uid)[1]) return `effects of parent #${up} ran before those of its child #${uid}`;
          }
        }
      }
      ctx.outcome(history.join());
      ctx.sample(history);
    }

    // ---- overlapping updates
    const LETTERS = 'abcdef';
    const Leaf = createComponent(function Leaf({ kind }) {
      return track(this, kind, (s) => html`<p>${s}</p>`);
    }, { arePropsEqual: (a, b) => a.kind === b.kind });
    const Top = createComponent(function Top() {
      return track(this, 'P', (s, n) => html`<div>${s}<${['XY', 'YX', 'Y', 'XY'][n % 4].split('').map((kind) => Leaf({ kind }).withKey(kind))}></div>`);
    });
    function track(context, kind, view) {
      const me = context.useMemo(() => {
        const me = { kind, uid: ++cur.uid, active: null, setups: 0, cleanups: 0, second: 0 };
        cur.all.set(me.uid, me);
        return me;
      }, []);
      const [s, set] = context.useState('');
      me.set = set;
      cur.latest[kind] = me;
      context.useEffect(() => {
        if (me.active !== null) me.problem = 'set up again before its cleanup';
        if (!cur.container.textContent.includes(`${kind}${me.uid}:${s};`)) me.problem = `set up for "${s}" while the document shows ${cur.container.textContent}`;
        me.active = s;
        me.setups++;
        return () => {
          if (me.active !== s) me.problem = 'cleaned up twice';
          me.active = null;
          me.cleanups++;
        };
      }, [s]);
      context.useEffect(() => {
        me.second++;
        return () => {
          me.second -= 100;
        };
      }, []);
      return view(`${kind}${me.uid}:${s};`, s.length);
    }
    async function overlapping(plan, c) {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      cur = { uid: 0, all: new Map(), latest: {}, container };
      root.render(Top({}), { flushSync: true });
      await drain();
      const handles = new Handles();
      const shown = new Map();
      let history = '';
      const onStep = () => {
        history += container.textContent + '>';
        const now = new Map([...container.textContent.matchAll(/([PXY])(\d+):([a-z]*);/g)].map((m) => [+m[2], m[3]]));
        for (const me of cur.all.values()) {
          if (me.problem) return `${me.kind}${me.uid}: effect ${me.problem}`;
          const s = now.get(me.uid);
          const before = shown.get(me.uid);
          const setups = me.setups - (me.seen ?? 0);
          me.seen = me.setups;
          if (s === undefined) {
            if (me.active !== null || me.cleanups !== me.setups) return `${me.kind}${me.uid} is not displayed but its effect for "${me.active}" is active`;
            if (me.second !== 0 && me.second !== -99) return `${me.kind}${me.uid}: constant effect ran ${me.second} times after unmounting`;
          } else {
            if (me.active !== s) return `${me.kind}${me.uid} displays "${s}" but its effect is active for "${me.active}"`;
            if (me.second !== 1) return `${me.kind}${me.uid}: constant effect ran ${me.second} times`;
            const max = before === undefined ? 1 + s.length : s.length - before.length;
            if (setups > max) return `${me.kind}${me.uid}: ${setups} setups for the change "${before}" -> "${s}"`;
          }
        }
        for (const [k, v] of now) shown.set(k, v);
      };
      const ops = plan.map(([target, lane], i) => () => {
        const me = cur.latest[target];
        const ch = LETTERS[i];
        handles.add(target === 'U' ? root.unmount(LANES[lane]()) : me.set((s) => s + ch, LANES[lane]()), `#${i} ${target} ${lane}`);
      });
      let m = onStep() ?? (await interleave(host, drain, c, ops, { onStep, syncOps: (i) => i >= 0 && plan[i][1].startsWith('sync') }));
      m ??= onStep() ?? handles.check();
      if (m !== undefined) return m;
      ctx.outcome(history);
    }

    const T = ctx.thorough;
    const n = DEPS.length;
    await ctx.space('one-effect', (function* () {
      for (let k = 1; k <= (T ? 5 : 4); k++) for (const w of words(n, k)) yield [w.map((i) => [i]), [true]];
      for (const w of words(n, 3)) yield [w.map((i) => [i]), [false]];
    })(), single);
    await ctx.space('two-effects', (function* () {
      const a = [0, 2, 3, 7];
      for (const w of words(16, 3)) for (const cl of [[true, true], [false, true], [true, false]]) yield [w.map((i) => [a[i >> 2], a[i & 3]]), cl];
    })(), single);
    await ctx.space('three-effects', (function* () {
      const a = [0, 2, 3];
      for (const w of words(27, 2)) yield [w.map((i) => [a[i % 3], a[((i / 3) | 0) % 3], a[(i / 9) | 0]]), [true, true, true]];
    })(), single);
    await ctx.space('failures', (function* () {
      const al = [];
      for (let d = 0; d < 3; d++) for (let f = 0; f < FAULTS.length; f++) al.push([d, f]);
      for (const lane of ['sync', 'def']) for (let k = 1; k <= (T ? 4 : 3); k++) for (const w of words(al.length, k)) yield [lane, w.map((i) => al[i])];
    })(), failures);
    await ctx.space('trees', (function* () {
      for (let k = 1; k <= (T ? 4 : 3); k++) for (const w of words(TREES.length, k)) yield w.slice();
    })(), trees);
    const plans = function* (targets, lanes, k) {
      const al = [];
      for (const t of targets) for (const l of lanes) al.push([t, l]);
      for (const w of words(al.length, k)) yield w.map((i) => al[i]);
    };
    await ctx.exploreSpace('overlapping-2', plans(['P', 'X', 'Y', 'U'], ['def', 'sync', 'ub', 't0'], 2), overlapping);
    await ctx.exploreSpace('overlapping-3', plans(T ? ['P', 'X', 'Y', 'U'] : ['P', 'X'], T ? ['sync', 'ub', 't0', 't1'] : ['sync', 'ub', 't0'], 3), overlapping);
    ctx.count('states', ctx.distinctSet.size);
  },
};
