// Stateless exhaustive exploration by prefix replay.
//
// A program calls c.choose(n, label) wherever behaviour may branch; explore()
// re-executes it from scratch for every sequence of answers.  A choice other
// than 0 costs one deviation when `bound` is given; every sequence with at most
// `bound` deviations is executed.

export class Divergence extends Error {}

export class Chooser {
  constructor(prefix) {
    this.prefix = prefix;
    this.trace = []; // {n, choice, label, free}
  }
  choose(n, label = '', { free = false } = {}) {
    if (n <= 0) throw new Error('choose(0)');
    const i = this.trace.length;
    let choice = 0;
    if (i < this.prefix.length) {
      choice = this.prefix[i];
      if (choice >= n) throw new Divergence(`replay divergence at ${i} (${label}): ${choice} >= ${n}`);
    }
    this.trace.push({ n, choice, label, free });
    return choice;
  }
  pick(items, label, opts) {
    return items[this.choose(items.length, label, opts)];
  }
  get choices() {
    return this.trace.map((t) => t.choice);
  }
}

export async function explore(program, { bound = Infinity, maxExecutions = Infinity, root = [], onExecution, stopped } = {}) {
  let prefix = root.slice();
  const stats = { executions: 0, transitions: 0, capped: false, maxDepth: 0 };
  while (true) {
    if (stats.executions >= maxExecutions || stopped?.()) {
      stats.capped = true;
      break;
    }
    const c = new Chooser(prefix);
    const result = await program(c);
    stats.executions++;
    stats.transitions += c.trace.length;
    stats.maxDepth = Math.max(stats.maxDepth, c.trace.length);
    if (onExecution && (await onExecution(c, result)) === false) break;
    // Backtrack: last position (outside the root prefix) that can be incremented within the bound.
    const tr = c.trace;
    let cost = 0;
    const costs = tr.map((t) => {
      const before = cost;
      if (!t.free && t.choice > 0) cost++;
      return before;
    });
    let i = tr.length - 1;
    for (; i >= root.length; i--) {
      const t = tr[i];
      if (t.choice + 1 >= t.n) continue;
      const next = costs[i] + (t.free ? 0 : 1);
      if (next > bound) continue;
      break;
    }
    if (i < root.length) break;
    prefix = tr.slice(0, i).map((t) => t.choice);
    prefix.push(tr[i].choice + 1);
  }
  return stats;
}

/** All k-length words over the alphabet 0..n-1. */
export function* words(n, k) {
  const w = new Array(k).fill(0);
  while (true) {
    yield w.slice();
    let i = k - 1;
    while (i >= 0 && ++w[i] === n) w[i--] = 0;
    if (i < 0) return;
  }
}

/** All sequences without repetition of length 0..k over items. */
export function* arrangements(items, k = items.length) {
  function* go(prefix, rest) {
    yield prefix;
    if (prefix.length === k) return;
    for (let i = 0; i < rest.length; i++) {
      yield* go([...prefix, rest[i]], [...rest.slice(0, i), ...rest.slice(i + 1)]);
    }
  }
  yield* go([], items);
}
