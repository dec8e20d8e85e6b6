import { createHash } from 'node:crypto';
import * as path from 'node:path';
import { Worker } from 'node:worker_threads';
import { explore } from './explore.mjs';

process.on('message', async (msg) => {
  let out;
  try {
    out = await work(msg);
  } catch (e) {
    out = { error: String(e?.stack ?? e) };
  }
  process.send(out);
});

export class Violation extends Error {}

async function work({ tier, seed, shard, shards, scratch, replayCase, checkFile }) {
  const check = (await import(checkFile)).default;
  let B = null;
  let dom = null;
  if (check.dom !== false) {
    dom = await import('./dom.mjs');
    await dom.installDOM(check.domOptions?.(tier) ?? {});
  }
  if (!check.needs || check.needs.includes('library')) B = await import(path.join(scratch, 'barebind.mjs'));
  const ctx = new Ctx({ tier, seed, shard, shards, scratch, replayCase, B, dom });
  await check.run(ctx);
  return ctx.result();
}

const MAX_VIOLATIONS = Number(process.env.VERIF_MAX_VIOLATIONS ?? 40);

/** Seconds after which an execution counts as not terminating (they take milliseconds). */
const STUCK = Number(process.env.VERIF_STUCK ?? 60);

/**
 * A thread that records what is being executed, and ends the process if the
 * execution does not terminate.  The parent then executes it again on its own.
 */
class Watchdog {
  #state = new Int32Array(new SharedArrayBuffer(8));
  #text = new Uint8Array(new SharedArrayBuffer(1 << 16));
  #encoder = new TextEncoder();

  constructor(file) {
    const thread = new Worker(
      `const { workerData: { state, text, file, stuck } } = require('node:worker_threads');
      const fs = require('node:fs');
      let last = -1, since = 0, written = -1;
      setInterval(() => {
        const n = Atomics.load(state, 0);
        if (n !== last) { last = n; since = 0; return; }
        since += 0.25;
        if (n > 0 && written !== n) { written = n; fs.writeFileSync(file, Buffer.from(text.slice(0, Atomics.load(state, 1)))); }
        if (n > 0 && since >= stuck) { fs.writeFileSync(file + '.stuck', ''); process.kill(process.pid, 'SIGKILL'); }
      }, 250);`,
      { eval: true, workerData: { state: this.#state, text: this.#text, file, stuck: STUCK } },
    );
    thread.unref();
  }

  enter(space, item, choices) {
    const { written } = this.#encoder.encodeInto(JSON.stringify({ space, item, choices }), this.#text);
    Atomics.store(this.#state, 1, written);
    Atomics.add(this.#state, 0, 1);
  }
}

class Ctx {
  counters = {};
  spaces = {};
  distinctSet = new Set();
  samples = [];
  violations = [];
  capped = false;
  index = 0;

  constructor(o) {
    Object.assign(this, o);
    this.thorough = o.tier === 'thorough';
    this.watchdog = new Watchdog(path.join(o.scratch, `current-${o.shard}${o.replayCase ? '-replay' : ''}`));
  }

  get stopped() {
    return this.violations.length >= MAX_VIOLATIONS;
  }

  count(name, n = 1) {
    this.counters[name] = (this.counters[name] ?? 0) + n;
  }

  outcome(value) {
    if (this.distinctSet.size < 300000) {
      this.distinctSet.add(createHash('md5').update(typeof value === 'string' ? value : JSON.stringify(value)).digest('base64').slice(0, 11));
    }
  }

  sample(v) {
    if (this.samples.length < 2) this.samples.push(v);
  }

  /**
   * Runs `body(item)` for this worker's share of `items` (a deterministic
   * partition).  `body` returns undefined, or a violation message.
   * `key(item)` must be JSON data from which `body` can be re-run.
   */
  #items = {}; // only for measuring how many of the items differ

  async space(name, items, body) {
    const stat = (this.spaces[name] ??= { cases: 0 });
    if (this.replayCase) {
      if (this.replayCase.space !== name) return;
      await this.#one(name, this.replayCase.item, body, stat);
      return;
    }
    let i = 0;
    for (const item of items) {
      if (process.env.VERIF_DISTINCT) (this.#items[name] ??= new Set()).add(JSON.stringify(item));
      if (i++ % this.shards !== this.shard) continue;
      if (this.stopped) {
        this.capped = true;
        return;
      }
      await this.#one(name, item, body, stat);
    }
    if (process.env.VERIF_DISTINCT && this.shard === 0) console.error(`${name}: ${i} items, ${this.#items[name]?.size} distinct`);
  }

  async #one(name, item, body, stat) {
    stat.cases++;
    this.count('executions');
    let message;
    this.watchdog.enter(name, item);
    try {
      message = await body(item);
    } catch (e) {
      message = `unexpected exception: ${e?.stack ?? e}${e?.cause ? `\ncaused by ${e.cause?.stack ?? e.cause}` : ''}`;
    }
    if (message !== undefined) {
      const text = JSON.stringify(item);
      this.violations.push({ space: name, fingerprint: `${name} ${text}`, case: { space: name, item }, size: text.length, message: `${name} ${text}\n${message}` });
    }
  }

  /**
   * Explores every choice sequence of `program(item, chooser)` for this
   * worker's share of `items`.
   */
  async exploreSpace(name, items, program, { bound = Infinity, maxExecutions = Infinity } = {}) {
    const stat = (this.spaces[name] ??= { cases: 0, executions: 0, transitions: 0, maxDepth: 0 });
    if (bound !== Infinity) stat.deviationBound = `<=${bound}`;
    const runOne = async (item, c) => {
      this.watchdog.enter(name, item, c.prefix);
      try {
        return await program(item, c);
      } catch (e) {
        if (e?.constructor?.name === 'Divergence') throw e;
        return `unexpected exception: ${e?.stack ?? e}${e?.cause ? `\ncaused by ${e.cause?.stack ?? e.cause}` : ''}`;
      }
    };
    const report = (item, c, message) => {
      const text = JSON.stringify(item);
      this.violations.push({
        space: name,
        fingerprint: `${name} ${text} [${c.choices.join(',')}]`,
        case: { space: name, item, choices: c.choices },
        size: text.length + c.trace.length + 10 * c.trace.filter((t) => t.choice > 0).length,
        message: `${name} ${text}\nschedule: ${c.trace.map((t) => `${t.label}:${t.choice}/${t.n}`).join(' ')}\n${message}`,
      });
    };
    if (this.replayCase) {
      if (this.replayCase.space !== name) return;
      const { Chooser } = await import('./explore.mjs');
      const c = new Chooser(this.replayCase.choices);
      const message = await runOne(this.replayCase.item, c);
      if (message !== undefined) report(this.replayCase.item, c, message);
      return;
    }
    let i = 0;
    for (const item of items) {
      if (process.env.VERIF_DISTINCT) (this.#items[name] ??= new Set()).add(JSON.stringify(item));
      if (i++ % this.shards !== this.shard) continue;
      if (this.stopped) {
        this.capped = true;
        return;
      }
      stat.cases++;
      let found = 0;
      const s = await explore((c) => runOne(item, c), {
        bound,
        maxExecutions,
        stopped: () => found >= 3 || this.stopped,
        onExecution: (c, message) => {
          this.count('executions');
          if (message !== undefined) {
            found++;
            report(item, c, message);
          }
        },
      });
      stat.executions += s.executions;
      stat.transitions += s.transitions;
      stat.maxDepth = Math.max(stat.maxDepth, s.maxDepth);
      this.count('transitions', s.transitions);
      if (s.capped) {
        this.capped = true;
        stat.cappedCases = (stat.cappedCases ?? 0) + 1;
      }
    }
  }

  result() {
    return {
      counters: this.counters,
      spaces: this.spaces,
      distinct: [...this.distinctSet],
      samples: this.samples,
      violations: this.violations,
      capped: this.capped,
    };
  }
}
