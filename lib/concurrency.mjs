// A small application driven through every interleaving of user operations and
// host callbacks.
import { ser } from './scene.mjs';

export const LANES = {
  def: () => ({}),
  sync: () => ({ flushSync: true }),
  ub: () => ({ priority: 'user-blocking' }),
  uv: () => ({ priority: 'user-visible' }),
  bg: () => ({ priority: 'background' }),
  t0: () => ({ transition: 0 }),
  t1: () => ({ transition: 1 }),
  t24: () => ({ transition: 24 }),
  d1: () => ({ delay: 50 }),
  d2: () => ({ delay: 500 }),
  ub_t0: () => ({ priority: 'user-blocking', transition: 0 }),
  bg_t0: () => ({ priority: 'background', transition: 0 }),
  sync_t0: () => ({ flushSync: true, transition: 0 }),
  sync_h: (sys) => ({ flushSync: true, handler: sys.handler() }),
  sync_bg: () => ({ flushSync: true, priority: 'background' }),
  sync_ub: () => ({ flushSync: true, priority: 'user-blocking' }),
  bg_d1: () => ({ priority: 'background', delay: 50 }),
  h_bg: (sys) => ({ handler: sys.handler(), priority: 'background' }),
  h: (sys) => ({ handler: sys.handler() }),
  h_t0: (sys) => ({ handler: sys.handler(), transition: 0 }),
  ub_d1: () => ({ priority: 'user-blocking', delay: 50 }),
};

/**
 * Runs `ops` (functions taking sys) interleaved with host callbacks as decided
 * by the chooser.  `onStep` is called whenever the DOM may have changed.
 */
export async function interleave(host, drain, c, ops, { onStep, syncOps = () => true, limit = 200 } = {}) {
  let next = 0;
  let dirty = false; // an operation ran since the last drain
  let steps = 0;
  while (true) {
    if (++steps > limit) return 'livelock: the system did not become idle';
    const options = [];
    const pending = host.pending();
    if (next < ops.length) options.push('op');
    if (dirty && next < ops.length && syncOps(next - 1)) options.push('drain');
    for (const t of pending) options.push(t);
    if (options.length === 0) {
      if (dirty) {
        await drain();
        dirty = false;
        const m = onStep?.('drain');
        if (m !== undefined) return m;
        if (host.pending().length > 0) continue;
      }
      return undefined;
    }
    const k = c.choose(options.length, next < ops.length ? 'op/host' : 'host');
    const o = options[k];
    if (o === 'op') {
      ops[next++]();
      dirty = true;
    } else if (o === 'drain') {
      await drain();
      dirty = false;
      const m = onStep?.('drain');
      if (m !== undefined) return m;
    } else {
      if (dirty) {
        await drain();
        dirty = false;
        const m = onStep?.('drain');
        if (m !== undefined) return m;
      }
      if (host.tasks.includes(o)) {
        await host.run(o);
        const m = onStep?.('host', o);
        if (m !== undefined) return m;
      }
    }
  }
}

/** Records the settlement of update handles. */
export class Handles {
  list = [];
  add(handle, label, onResolve) {
    const rec = { label, state: 'pending', error: undefined, problem: undefined };
    this.list.push(rec);
    handle.finished.then(
      () => {
        rec.state = 'resolved';
        rec.problem = onResolve?.();
      },
      (e) => {
        rec.state = 'rejected';
        rec.error = e;
      },
    );
    return rec;
  }
  check() {
    for (const r of this.list) {
      if (r.state === 'pending') return `handle of ${r.label} never settled although the host is idle`;
      if (r.state === 'rejected') return `handle of ${r.label} rejected: ${r.error?.stack ?? r.error}${r.error?.cause ? `\n cause ${r.error.cause.stack}` : ''}`;
      if (r.problem !== undefined) return r.problem;
    }
  }
}

export { ser };
