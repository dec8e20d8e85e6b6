// C04 Every scheduled update settles, once, when and how its options say.
import { interleave, LANES } from '../lib/concurrency.mjs';
import { words } from '../lib/explore.mjs';

const LETTERS = 'abcdefgh';
const PRIORITY = { def: 'background', ub: 'user-blocking', uv: 'user-visible', bg: 'background', t0: 'background', t1: 'background', t24: 'background', d1: 'background', d2: 'background', h: 'user-blocking', hs: 'user-blocking', ha: 'user-blocking', click: 'user-blocking', move: 'user-visible', inclick: 'user-blocking', ub_t0: 'user-blocking', bg_t0: 'background', ub_d1: 'user-blocking', h_t0: 'user-blocking', h_bg: 'background', bg_d1: 'background' };
const DELAY = { d1: 50, d2: 500, ub_d1: 50, bg_d1: 50 };
// options that share one scheduling lane
const LANE_OF = { t24: 't0', def: 'bg', click: 'ub', inclick: 'ub', move: 'uv', hs: 'h', ha: 'h' };
const laneOf = (l) => LANE_OF[l] ?? l;

export default {
  id: 'C04',
  rule: 'an item is a host configuration and a sequence of updates (target, scheduling option, optionally a second update issued from an effect, a render, the resolution of the handle, the commit handler or an event listener); every interleaving with pending host callbacks is executed; monitors on handles, document, commit handlers and host requests; distinct outcomes are distinct logs',
  assumptions: ['the host eventually runs every callback, in any order', 'commit handlers invoke the commit exactly once'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, drain } = dom;
    const { Runtime, DOMAdapter, DOMRoot, html, createComponent } = B;
    const adapter = new DOMAdapter(document);
    let cur;

    const Cell = createComponent(function Cell({ name }) {
      const [s, set] = this.useState('');
      cur.set[name] = (ch, o) => set((s) => s + ch, o);
      const hooks = cur.hooks;
      const last = s.at(-1);
      if (last !== undefined && hooks.render?.[last] !== undefined) {
        const f = hooks.render[last];
        delete hooks.render[last];
        f();
      }
      this.useEffect(() => {
        for (const ch of s) {
          if (hooks.effect?.[ch] !== undefined) {
            const f = hooks.effect[ch];
            delete hooks.effect[ch];
            f();
          }
        }
      }, [s]);
      return html`<p>${name + '=' + s}</p>`;
    });
    const App = createComponent(function App() {
      return html`<div @click=${() => cur.onEvent?.()} @mousemove=${() => cur.onEvent?.()}><${[Cell({ name: 'X' }), Cell({ name: 'Y' })]}></div>`;
    });

    // item: [mode, [[target, lane, nest?], ...]]   nest: [where, target, lane]
    async function program([mode, plan], c) {
      const rafPairing = !mode.includes('hidden');
      host.reset(mode.startsWith('scheduler') ? 'scheduler' : 'fallback', { idle: !mode.includes('noidle'), rafPairing });
      const container = document.createElement('div');
      document.body.replaceChildren(container);
      const runtime = new Runtime(adapter);
      const root = new DOMRoot(container, runtime);
      cur = { set: {}, hooks: { render: {}, effect: {} } };
      root.render(App({}), { flushSync: true });
      await drain();
      let clock = 0;
      let rendering = false;
      let problem;
      const fail = (m) => (problem ??= m);
      const log = [];
      const recs = [];
      const ranLanes = new Set();
      const shownOf = (name) => container.textContent.match(new RegExp(name + '=([a-hA-H]*)'))?.[1];
      const isShown = (r) => shownOf(r.target)?.includes(r.ch);

      const update = (target, lane0, ch, onHandler) => {
        // without options, the event being dispatched decides the priority
        const lane = lane0 === 'def' && jsdomWindow.event !== undefined ? 'inclick' : lane0;
        const rec = { target, lane, ch, state: 'pending', handlerCalls: 0, committed: false, seq: ++clock, inRender: rendering };
        recs.push(rec);
        const before = new Set(host.tasks);
        const sys = {
          handler: () => (commit) => {
            rec.handlerCalls++;
            rec.calledAt = ++clock;
            const run = () => {
              const shown = isShown(rec);
              if (shown && !recs.some((r) => r.committed)) fail(`#${ch}: displayed before its commit handler invoked the commit`);
              commit();
              rec.committed = true;
            };
            onHandler?.();
            if (lane === 'hs') {
              run();
            } else if (lane === 'ha') {
              return Promise.resolve().then(() => Promise.resolve()).then(run);
            } else {
              return new Promise((resolve) => host.add('handler', () => { run(); resolve(); }));
            }
          },
        };
        let handle;
        if (lane === 'click' || lane === 'move') {
          cur.onEvent = () => {
            handle = cur.set[target](ch, {});
          };
          container.firstElementChild.dispatchEvent(new jsdomWindow.Event(lane === 'click' ? 'click' : 'mousemove'));
          cur.onEvent = undefined;
        } else {
          const o = lane === 'hs' || lane === 'ha' ? LANES.h(sys) : (LANES[lane] ?? LANES.def)(sys);
          handle = cur.set[target](ch, o);
        }
        // A synchronous update takes updates of its other lanes along.
        if (lane.startsWith('sync_')) for (const l of lane.split('_')) ranLanes.add(laneOf(l));
        rec.hostSeq = host.seq;
        for (const t of host.tasks) {
          if (before.has(t)) continue;
          t.lanes = lane.split('_').map(laneOf);
          if (lane.startsWith('sync')) fail(`#${ch} ${lane}: a synchronous update requested a host callback`);
          if (t.kind === 'task') {
            if (t.priority !== PRIORITY[lane]) fail(`#${ch} ${lane}: the callback was requested with priority ${t.priority}`);
            if (t.delay !== DELAY[lane]) fail(`#${ch} ${lane}: the callback was requested with delay ${t.delay}`);
          } else {
            const kind = { 'user-blocking': 'message', 'user-visible': 'timer', background: mode.includes('noidle') ? 'timer' : 'idle' }[PRIORITY[lane]];
            if (DELAY[lane] === undefined && t.kind !== kind) fail(`#${ch} ${lane}: the callback was requested as ${t.kind}`);
          }
        }
        handle.finished.then(
          () => {
            if (rec.state !== 'pending') fail(`#${ch}: settled twice`);
            rec.state = 'resolved';
            if (!isShown(rec)) fail(`#${ch} ${target} ${lane}: resolved although it is not displayed (${container.textContent})`);
            if (rec.onThen) rec.onThen();
          },
          (e) => {
            rec.state = 'rejected';
            fail(`#${ch} ${target} ${lane}: rejected: ${e?.stack}${e?.cause ? `\ncause ${e.cause.stack}` : ''}`);
          },
        );
        return rec;
      };

      // Stepping through the runtime ends when nothing is pending.
      let stepping = false;
      const stepThrough = async () => {
        if (stepping) return;
        stepping = true;
        try {
          while (await B.step(runtime));
        } catch (e) {
          fail(`step() failed: ${e?.stack}`);
        }
        stepping = false;
        const r = recs.find((r) => r.state === 'pending');
        if (r !== undefined) fail(`step() reports that nothing is pending before #${r.ch} ${r.lane} has settled`);
      };

      let text = container.textContent;
      let flushing = () => recs.some((r) => r.state === 'pending' && r.handlerCalls > 0) || host.tasks.some((t) => t.kind === 'raf');
      // A flush that was waiting for the host when the update was scheduled.
      const blocked = (s) => (s.inRender ? flushing() : recs.some((r) => r.state === 'pending' && r.calledAt < s.seq) || host.tasks.some((t) => t.kind === 'raf' && t.id <= s.hostSeq));
      let shownBefore = new Set();
      const onStep = (kind, task) => {
        if (problem !== undefined) return problem;
        if (kind === 'host') for (const l of task.lanes ?? []) ranLanes.add(l);
        const now = container.textContent;
        const fresh = recs.filter((r) => !shownBefore.has(r) && isShown(r));
        for (const r of fresh) shownBefore.add(r);
        log.push(kind === 'host' ? task.kind : kind, now);
        const syncFresh = fresh.some((r) => r.lane.startsWith('sync'));
        if (now !== text) {
          const frame = kind === 'host' && (task.kind === 'raf' || (task.kind === 'timer' && task.lanes === undefined));
          const byHandler = fresh.some((r) => r.committed) || (kind === 'host' && task.kind === 'handler');
          if (!frame && !byHandler && !syncFresh) return `the document changed in ${kind === 'host' ? `a ${task.kind} callback` : 'microtasks'} although no synchronous update was due (${text} -> ${now})`;
          text = now;
        }
        for (const r of fresh) {
          if (r.lane.startsWith('sync')) continue;
          if (!r.lane.split('_').map(laneOf).some((l) => ranLanes.has(l))) return `#${r.ch} ${r.lane}: displayed before the host has run its callback`;
        }
        for (const r of recs) {
          if (r.lane.startsWith('sync') && r.state === 'pending' && !blocked(r)) return `#${r.ch} ${r.lane}: not displayed after the microtasks although nothing is being flushed`;
          if (r.handlerCalls > 1) return `#${r.ch}: commit handler called ${r.handlerCalls} times`;
        }
      };
      const ops = plan.map(([target, lane, nest], i) => () => {
        const ch = LETTERS[i];
        const inner = nest && (() => update(nest[1], nest[2], ch.toUpperCase()));
        const where = nest?.[0];
        if (where === 'effect') cur.hooks.effect[ch] = inner;
        if (where === 'render') {
          cur.hooks.render[ch] = () => {
            rendering = true;
            inner();
            rendering = false;
          };
        }
        const rec = update(target, lane, ch, where === 'handler' ? inner : undefined);
        stepThrough();
        if (where === 'then') rec.onThen = inner;
        if (where === 'event') {
          cur.onEvent = inner;
          container.firstElementChild.dispatchEvent(new jsdomWindow.Event('click'));
          cur.onEvent = undefined;
        }
      });
      const m = await interleave(host, drain, c, ops, { onStep, syncOps: (i) => i >= 0 && plan[i][1].startsWith('sync') });
      if (m !== undefined) return m;
      await drain();
      const m2 = onStep('drain') ?? problem;
      if (m2 !== undefined) return m2;
      const anySync = recs.some((r) => r.lane.startsWith('sync'));
      for (const r of recs) {
        if (r.state !== 'resolved') return `#${r.ch} ${r.target} ${r.lane}: its handle never settled although the host is idle (document ${container.textContent})`;
        if (!isShown(r)) return `#${r.ch} ${r.target} ${r.lane}: never displayed`;
        if (!anySync && recs.length === 1 && ['h', 'hs', 'ha', 'h_bg', 'h_t0'].includes(r.lane) && r.handlerCalls !== 1) return `#${r.ch}: commit handler called ${r.handlerCalls} times`;
      }
      if (stepping) return 'step() is still waiting although everything has settled';
      if (host.tasks.length > 0) return `host requests left over: ${host.tasks.map((t) => t.kind)}`;
      ctx.outcome(log.join('>'));
      ctx.sample([mode, plan, c.choices, log.join('>')]);
    }

    const ALL = Object.keys(PRIORITY).filter((l) => l !== 'inclick').concat('sync', 'sync_h', 'sync_bg', 'sync_ub', 'sync_t0');
    const T = ctx.thorough;
    const MODES = ['scheduler', 'fallback', 'fallback-noidle', 'scheduler-hidden', 'fallback-hidden'];
    const seqs = function* (modes, targets, lanes, n, nests = [undefined]) {
      const alphabet = [];
      for (const t of targets) for (const l of lanes) for (const x of nests) alphabet.push(x ? [t, l, x] : [t, l]);
      for (const mode of modes) for (const w of words(alphabet.length, n)) yield [mode, w.map((i) => alphabet[i])];
    };
    const nests = (lanes, wheres = ['effect', 'then', 'render', 'event']) => wheres.flatMap((w) => lanes.flatMap((l) => [[w, 'X', l], [w, 'Y', l]]));
    await ctx.exploreSpace('one', seqs(MODES, ['X'], ALL, 1), program);
    await ctx.exploreSpace('two', seqs(MODES, ['X', 'Y'], T ? ALL : ['def', 'sync', 'sync_h', 'sync_bg', 'ub', 'uv', 't0', 'd1', 'd2', 'h', 'hs', 'ha', 'h_bg', 'click', 'move', 'ub_t0', 'bg_d1'], 2), program);
    await ctx.exploreSpace('three', seqs(T ? MODES.slice(0, 3) : ['scheduler'], ['X', 'Y'], T ? ['def', 'sync', 'ub', 't0', 't1', 'h', 'hs'] : ['sync', 'ub', 't0', 'h'], 3), program);
    await ctx.exploreSpace('nested-one', seqs(['scheduler', 'fallback'], ['X'], ['def', 'sync', 'ub', 't0', 'h', 'hs'], 1, nests(ALL)), program);
    await ctx.exploreSpace('nested-handler', seqs(['scheduler'], ['X'], ['h', 'hs', 'ha'], T ? 2 : 1, nests(T ? ['def', 'sync', 'ub', 't0', 'h', 'hs', 'ha'] : ALL, ['handler'])), program);
    await ctx.exploreSpace('nested-two', (function* () {
      const lanes = T ? ['def', 'sync', 'ub', 't0', 'h'] : ['sync', 'ub', 't0'];
      for (const [mode, [p]] of seqs(['scheduler'], ['X'], lanes, 1, nests(lanes))) {
        for (const t of ['X', 'Y']) for (const l of lanes) {
          yield [mode, [p, [t, l]]];
          yield [mode, [[t, l], p]];
        }
      }
    })(), program);
    if (T) await ctx.exploreSpace('four', seqs(['scheduler'], ['X'], ['sync', 'ub', 't0', 'h'], 4), program);
    ctx.count('states', ctx.distinctSet.size);
  },
};
