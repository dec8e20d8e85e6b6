// C20 Middleware: every rendered update passes every middleware once, and observers change nothing.
import { Chooser, words } from '../lib/explore.mjs';
import { interleave, LANES } from '../lib/concurrency.mjs';

export default {
  id: 'C20',
  rule: 'an item is a set of middlewares and a sequence of updates (state and root updates in several lanes, some failing while rendering, some while committing, some scheduled from effects) mixed with registrations and removals of middlewares, under every interleaving with host callbacks; each execution is repeated under the same schedule without middlewares (differential oracle), and the calls of the middlewares, the log groups and the timing marks are checked against the renders and effects that took place; distinct outcomes are distinct histories',
  assumptions: ['middlewares are registered and removed between renders', 'the middlewares under test call the rendering once'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot, html, createComponent, UpdateLogger, UpdateProfiler } = B;
    const adapter = new DOMAdapter(document);
    const T = ctx.thorough;
    let cur;

    const make = (name, body) => createComponent({ [name]({ x, child }) {
      cur.pipe.push(['render', name]);
      cur.clock += cur.cost;
      const [s, set] = this.useState('');
      cur.set[name] = set;
      this.useEffect(() => {
        cur.trace.push(`+${name}${s}${x}`);
        cur.pipe.push(['effect', name]);
        cur.clock += 2 * cur.cost;
        const last = s.at(-1);
        if (last === 'E' && !cur.thrown.has(name + s)) {
          cur.thrown.add(name + s);
          throw new Error('effect');
        }
        if (last === 'N' && !cur.thrown.has(name + s)) {
          cur.thrown.add(name + s);
          cur.op(['B', '1', 'bg']);
        }
        return () => cur.trace.push(`-${name}${s}${x}`);
      }, [s, x]);
      if (s.at(-1) === 'F' && !cur.thrown.has(name + s)) {
        cur.thrown.add(name + s);
        throw new Error('render');
      }
      return html`<p>${name + s + x}<${child}></p>`;
    } }[name]);
    const A = make('A');
    const Bee = make('B');
    const P = make('P');
    const view = (x) => html`<div><${P({ x, child: [A({ x: '' }), Bee({ x: '' })] })}></div>`;

    /** Records what passes through it. */
    class Recorder {
      constructor(name) {
        this.name = name;
      }
      handle(update, render) {
        const { pipe } = cur;
        const me = [this.name, update.id];
        pipe.push(['in', ...me, cur.clock]);
        let commit;
        try {
          commit = render(update);
        } catch (e) {
          pipe.push(['fail', ...me, cur.clock]);
          throw e;
        }
        pipe.push(['out', ...me, cur.clock]);
        return () => {
          pipe.push(['cin', ...me, cur.clock]);
          try {
            commit();
          } catch (e) {
            pipe.push(['cfail', ...me, cur.clock]);
            throw e;
          }
          pipe.push(['cout', ...me, cur.clock]);
        };
      }
    }
    const fresh = { a: () => new Recorder('a'), b: () => new Recorder('b'), c: () => new Recorder('c') };
    fresh.L = () => new UpdateLogger({ groupCollapsed: (...r) => cur.log.push(['group', ...r]), log: (...r) => cur.log.push(['log', ...r]), groupEnd: (...r) => cur.log.push(['end', ...r]) });
    fresh.U = () => new UpdateProfiler({ mark: (n) => cur.marks.push(['mark', n]), measure: (...r) => cur.marks.push(['measure', ...r]) });

    const realNow = performance.now;
    /** The clock stands still, or only rendering, effects and waiting take time. */
    async function once(mws, ops, c, cost) {
      performance.now = () => cur.clock;
      try {
        return await run(mws, ops, c, cost);
      } finally {
        performance.now = realNow;
      }
    }
    async function run(mws, ops, c, cost) {
      host.reset('scheduler');
      cur = { clock: cost === 0 ? 5 : 1000, cost, trace: [], pipe: [], log: [], marks: [], set: {}, thrown: new Set(), issued: new Map(), regs: [], scheds: new Map() };
      const my = cur;
      const container = document.createElement('div');
      const runtime = new Runtime(adapter);
      const regs = my.regs; // [name, unuse]
      const use = (k) => {
        const mw = fresh[k]();
        regs.push([k, runtime.use(mw)]);
        my.pipe.push(['list', regs.map(([k]) => k)]);
      };
      if (mws !== null) for (const k of mws) use(k);
      const root = new DOMRoot(container, runtime);
      let n = 0;
      const sys = { handler: () => (commit) => new Promise((resolve, reject) => host.add('handler', () => {
        try {
          commit();
          resolve();
        } catch (e) {
          reject(e);
        }
      })) };
      const watch = (h, owner, o) => {
        my.issued.set(h.id, { owner, o });
        h.finished.then(() => my.trace.push(`ok${h.id}`), (e) => my.trace.push(`bad${h.id}${e?.cause?.message ?? e?.message}`));
      };
      let x = 0;
      my.op = ([who, what, lane]) => {
        const o = LANES[lane ?? 'sync'](sys);
        if (who === 'R') watch(root.render(view(++x), o), 'DOMRoot', o);
        else if (who === 'X') watch(root.unmount(o), 'DOMRoot', o);
        else if (who === 'use') mws !== null && use(what);
        else if (who === 'drop') {
          const i = regs.findIndex(([k]) => k === what);
          if (mws !== null && i >= 0) {
            const [[, unuse]] = regs.splice(i, 1);
            unuse();
            unuse();
            my.pipe.push(['list', regs.map(([k]) => k)]);
          }
        } else watch(my.set[who]((s) => s + what, o), who, o);
      };
      watch(root.render(view(0), { flushSync: true }), 'DOMRoot', { flushSync: true });
      await drain();
      const m = await interleave(host, drain, c, ops.map((op) => () => my.op(op)), { onStep: () => {
        my.clock += 40 * cost;
        my.trace.push(container.innerHTML.replace(/<!--.*?-->/g, ''));
      } });
      if (m !== undefined) return [my, m];
      await host.settle();
      my.trace.push(container.textContent);
      return [my];
    }

    /** The calls of the middlewares follow their order of registration around the rendering. */
    function judge(my) {
      let list = [];
      const stack = []; // open handle calls
      const commits = []; // open commits
      const state = new Map(); // id -> rendered | failed | committed | cfailed
      const passed = new Map(); // id -> the middlewares it went through
      const times = new Map(); // id -> when it was rendered and committed
      let id;
      let blind = false; // something was rendered while no recorder was in use
      for (const [ev, name, n, at] of my.pipe) {
        const rec = list.filter((k) => k !== 'L' && k !== 'U');
        switch (ev) {
          case 'list':
            if (stack.length + commits.length === 0) list = name;
            break;
          case 'in':
            if (commits.length > 0) return 'an update was rendered during a commit';
            if (stack.length === 0) {
              id = n;
              if (state.has(id)) return `update ${id} was rendered twice`;
              if (!my.issued.has(id)) return `update ${id} is unknown`;
              passed.set(id, list);
              times.set(id, { in: at });
            }
            if (n !== id || rec[stack.length] !== name) return `middleware ${name} handles update ${n} out of order (${rec})`;
            stack.push(name);
            break;
          case 'render':
            blind ||= rec.length === 0;
            // A root render whose tree is unmounted by the same batch mounts it anew when it is committed.
            if (my.unmounts && commits.length > 0 && commits.length === passed.get(id).filter((k) => k !== 'L' && k !== 'U').length && my.issued.get(id).owner === 'DOMRoot') break;
            if (stack.length !== rec.length || commits.length > 0) return `${name} was rendered outside of middlewares (${rec})`;
            break;
          case 'out':
          case 'fail':
            if (n !== id || stack.pop() !== name) return 'handling is not nested';
            times.get(id).out = at;
            if (ev === 'fail' || !state.has(id)) state.set(id, ev === 'out' ? 'rendered' : 'failed');
            break;
          case 'cin':
            if (commits.length === 0) id = n;
            if (state.get(n) !== 'rendered' && !(commits.length > 0 && n === id)) return `update ${n} was committed although it is ${state.get(n)}`;
            if (passed.get(n).filter((k) => k !== 'L' && k !== 'U')[commits.length] !== name) return `middleware ${name} commits update ${n} out of order`;
            if (commits.length === 0) times.get(n).cin = at;
            state.set(n, 'committing');
            commits.push(name);
            break;
          case 'cout':
          case 'cfail':
            if (n !== id || commits.pop() !== name) return 'commits are not nested';
            times.get(id).cout = at;
            state.set(n, ev === 'cout' ? 'committed' : 'cfailed');
            break;
          case 'effect':
            if (commits.length !== 0 ? commits.length !== passed.get(id).filter((k) => k !== 'L' && k !== 'U').length : rec.length > 0 && !blind) return 'an effect ran outside of the commit';
        }
      }
      if (stack.length > 0 || commits.length > 0) return 'a middleware is still handling an update';
      return { state, passed, times };
    }

    const MODE = (o) => (o.flushSync ? 'synchronous' : o.handler ? 'user-handler' : 'animation-frame');
    const PATH = { DOMRoot: 'DOMRoot', P: 'DOMRoot > P', A: 'DOMRoot > P > A', B: 'DOMRoot > P > B' };
    function judgeLog(my, { state, passed, times }) {
      const groups = [];
      let open;
      for (const [ev, ...r] of my.log) {
        if (ev === 'group') {
          if (open !== undefined) return 'log groups are nested';
          open = { head: r, lines: [] };
        } else if (open === undefined) return `${ev} outside of a log group`;
        else if (ev === 'log') open.lines.push(r[0]);
        else {
          groups.push(open);
          open = undefined;
        }
      }
      if (open !== undefined) return 'a log group is left open';
      const seen = new Map();
      for (const { head, lines } of groups) {
        const text = head[0].replaceAll('%c', '');
        if ((head[0].match(/%c/g) ?? []).length !== head.length - 1) return `styles do not fit "${head[0]}"`;
        const m = /^Update #(\d+) (\w+) at (\S+) in /.exec(text);
        if (m === null) return `cannot read "${text}"`;
        const id = Number(m[1]);
        if (seen.has(id)) return `update ${id} was logged twice`;
        seen.set(id, m[2]);
        const { owner, o } = my.issued.get(id) ?? {};
        if (m[3] !== owner) return `update ${id} of ${owner} was logged as of ${m[3]}`;
        const all = lines.join('\n').replaceAll('%c', '');
        if (!all.includes(`Under ${PATH[owner]}\n`) && !all.endsWith(`Under ${PATH[owner]}`)) return `update ${id} of ${owner}: ${all}`;
        if (m[2] === 'COMPLETED' && !all.includes(`Committed with ${MODE(o)} mode`)) return `update ${id} was committed in ${MODE(o)} mode: ${all}`;
        const t = times.get(id);
        const took = (s, ms) => s === ms.toFixed(1);
        if (t !== undefined && t.cout !== undefined) {
          const [, total] = /in (-?[\d.]+)ms/.exec(text) ?? [];
          const [, rendered] = /Rendered with .*? after (-?[\d.]+)ms/.exec(all) ?? [];
          const [, committed] = /Committed with .*? after (-?[\d.]+)ms/.exec(all) ?? [];
          if (!took(rendered, t.out - t.in) || !took(committed, t.cout - t.cin) || !took(total, t.cout - t.in)) return `update ${id} took ${t.out - t.in} + ${t.cout - t.cin} of ${t.cout - t.in} ms and was logged as ${rendered} + ${committed} of ${total}`;
        } else if (t !== undefined && t.cin === undefined && m[2] === 'FAILED') {
          const [, total] = /in (-?[\d.]+)ms/.exec(text) ?? [];
          if (!took(total, t.out - t.in)) return `update ${id} failed after ${t.out - t.in} ms and was logged as ${total}`;
          if (/Rendered with|Committed with/.test(all)) return `update ${id} was not rendered: ${all}`;
        }
        if (o.priority !== undefined && !o.flushSync && !o.handler && m[2] === 'COMPLETED' && !all.includes(`Rendered with ${o.priority} priority`)) return `update ${id} was rendered with ${o.priority}: ${all}`;
      }
      for (const [id, s] of state) {
        const want = !passed.get(id).includes('L') || s === 'rendered' ? undefined : s === 'committed' ? 'COMPLETED' : 'FAILED';
        if (seen.get(id) !== want) return `update ${id} was ${s} and logged as ${seen.get(id)}`;
        seen.delete(id);
      }
      if (seen.size > 0 && my.all) return `updates ${[...seen.keys()]} were logged but not rendered`;
    }
    function judgeMarks(my, { state, passed }) {
      const at = new Map();
      for (const [i, [ev, name, from, to]] of my.marks.entries()) {
        if (ev === 'mark') {
          if (at.has(name)) return `mark ${name} was set twice`;
          at.set(name, i);
        } else {
          const owner = name.split(' ')[1];
          if (!at.has(from) || !at.has(to)) return `measure "${name}" uses a mark that was not set (${from}, ${to})`;
          const [id, id2] = [from, to].map((n) => Number(n.split(':').at(-1)));
          if (id !== id2 || my.issued.get(id)?.owner !== owner) return `measure "${name}" from ${from} to ${to}`;
          at.set(`${name.split(' ')[0]}#${id}`, i);
        }
      }
      for (const [id, s] of state) {
        const used = passed.get(id).includes('U');
        const has = (k) => at.has(k);
        const rs = `barebind:render-start:${id}`;
        const re = `barebind:render-end:${id}`;
        const cs = `barebind:commit-start:${id}`;
        const ce = `barebind:commit-end:${id}`;
        const committed = used && (s === 'committed' || s === 'cfailed');
        if (has(rs) !== used || has(re) !== used || has(cs) !== committed || has(ce) !== committed) return `update ${id} was ${s}; marks: ${[rs, re, cs, ce].filter(has)}`;
        if (used && !(at.get(rs) < at.get(re))) return `marks of update ${id} are out of order`;
        if (committed && !(at.get(re) < at.get(cs) && at.get(cs) < at.get(ce))) return `marks of update ${id} are out of order`;
        if (committed !== has(`Update#${id}`) || committed !== has(`Commit#${id}`) || (committed && !has(`Render#${id}`))) return `update ${id} was ${s}; measures are missing or superfluous`;
      }
    }

    const program = async ([mws, ops, cost = 1.25], c) => {
      const [my, m] = await once(mws, ops, c, cost);
      if (m !== undefined) return m;
      const [base, m2] = await once(null, ops, new Chooser(c.choices), cost);
      if (m2 !== undefined) return `without middlewares: ${m2}`;
      const [a, b] = [my.trace.join('\n'), base.trace.join('\n')];
      if (a !== b) return `with ${mws}:\n${a}\nwithout:\n${b}`;
      my.all = !ops.some(([o, n]) => o === 'drop' && n === 'a');
      my.unmounts = ops.some(([o]) => o === 'X');
      const r = judge(my);
      if (typeof r === 'string') return r;
      if (mws.includes('a')) {
        const e = judgeLog(my, r) ?? judgeMarks(my, r);
        if (e !== undefined) return e;
      }
      ctx.outcome(a);
      ctx.sample([mws, ops, c.choices, my.pipe.length]);
    };
    const al = [];
    for (const l of T ? ['sync', 'bg', 'h', 'ub', 't0'] : ['sync', 'bg', 'h']) {
      al.push(['P', '1', l], ['A', '1', l], ['A', 'F', l], ['A', 'E', l], ['R', '', l]);
      if (l !== 'ub') al.push(['P', 'F', l], ['A', 'N', l], ['B', '1', l]);
    }
    al.push(['X', '', 'bg']);
    const SETS = [['a', 'L', 'U', 'b'], ['a'], ['L', 'U', 'a'], ['U', 'L']];
    const plans = function* (from, to, sets) {
      for (const s of sets) for (let k = from; k <= to; k++) for (const w of words(al.length, k)) {
        const p = w.map((i) => al[i]);
        if (p.some(([o], i) => o === 'X' && i !== p.length - 1)) continue;
        yield [s, p];
        if (k < 3) yield [s, p, 0];
      }
    };
    await ctx.exploreSpace('fixed', plans(1, 2, SETS), program);
    await ctx.exploreSpace('fixed-long', plans(3, 3, SETS.slice(0, 1)), program, { bound: T ? 2 : 0 });
    // Every way of scheduling, alone and in pairs.
    await ctx.exploreSpace('lanes', (function* () {
      const lanes = Object.keys(LANES);
      for (const s of [['a', 'L', 'U', 'b'], ['U', 'L']]) {
        for (const l of lanes) for (const who of ['P', 'A', 'R']) for (const what of ['1', 'F', 'E']) if (who !== 'R' || what === '1') yield [s, [[who, what, l]]];
        if (s[0] === 'a') for (const [i, j] of words(lanes.length, 2)) yield [s, [['A', '1', lanes[i]], ['P', '1', lanes[j]]]];
      }
    })(), program, { bound: 2 });
    // Middlewares come and go.
    await ctx.exploreSpace('changing', (function* () {
      const ups = [['P', '1', 'sync'], ['A', '1', 'bg'], ['A', 'F', 'bg'], ['A', 'E', 'h'], ['R', '', 'bg']];
      const mw = [['use', 'b'], ['use', 'L'], ['use', 'U'], ['drop', 'a'], ['drop', 'b'], ['drop', 'L'], ['use', 'c'], ['drop', 'U'], ['drop', 'c']];
      const al = [...ups, ...mw];
      for (const s of [['a', 'b'], ['a', 'L', 'U', 'b'], ['c', 'a']]) for (let k = 2; k <= (T ? 5 : 4); k++) for (const w of words(al.length, k)) {
        const p = w.map((i) => al[i]);
        const u = p.filter((o) => ups.includes(o)).length;
        if (u === 0 || u === k || u > 2) continue;
        // an update comes last, middlewares of one name are used once at a time
        if (!ups.includes(p.at(-1)) || u + (T ? 3 : 2) < k) continue;
        const on = new Set(s);
        if (p.some(([o, n]) => (o === 'use' ? on.has(n) || !on.add(n) : o === 'drop' ? !on.delete(n) : false))) continue;
        yield [s, p];
      }
    })(), program, { bound: T ? 3 : 2 });
    ctx.count('states', ctx.distinctSet.size);
  },
};
