// A simulated DOM (jsdom, as in the repository's own test set-up) plus a host
// whose every asynchronous entry point is owned by the explorer.
import { createRequire } from 'node:module';
import { REPO } from './bundle.mjs';

const realSetImmediate = globalThis.setImmediate;
const realSetTimeout = globalThis.setTimeout;
const realClearTimeout = globalThis.clearTimeout;
const realConsole = { ...console };

export const real = { setImmediate: realSetImmediate, setTimeout: realSetTimeout, clearTimeout: realClearTimeout, console: realConsole };

/** Lets every pending microtask (and those they queue) run to exhaustion. */
export function drain() {
  return new Promise((resolve) => realSetImmediate(resolve));
}

export const warnings = [];
export const unhandled = [];

let installed = false;

export async function installDOM({ moveBefore = false } = {}) {
  if (installed) return;
  installed = true;
  const require = createRequire(REPO + '/package.json');
  let jsdom;
  try {
    jsdom = require('jsdom');
  } catch {
    jsdom = createRequire('/opt/dom/package.json')('jsdom');
  }
  const virtualConsole = new jsdom.VirtualConsole();
  const dom = new jsdom.JSDOM('<!doctype html><html><head></head><body></body></html>', {
    url: 'http://localhost:3000/',
    pretendToBeVisual: false,
    virtualConsole,
  });
  const w = dom.window;
  // jsdom reports exceptions thrown by event listeners here.
  virtualConsole.on('jsdomError', (e) => reported.push(e));
  const skip = new Set(['window', 'self', 'globalThis', 'global', 'undefined', 'NaN', 'Infinity', 'performance', 'crypto', 'console', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'queueMicrotask', 'URL', 'URLSearchParams', 'AbortController', 'AbortSignal', 'Headers', 'Blob', 'File', 'FormData', 'localStorage', 'sessionStorage', 'requestAnimationFrame', 'cancelAnimationFrame', 'parent', 'top', 'length', 'name', 'event', 'navigation']);
  for (const key of Object.getOwnPropertyNames(w)) {
    if (skip.has(key)) continue;
    if (key in globalThis && !/^(Event|EventTarget|CustomEvent|location|history|navigator|document|Node)/.test(key) && Object.getOwnPropertyDescriptor(globalThis, key)) continue;
    try {
      Object.defineProperty(globalThis, key, { value: w[key], configurable: true, writable: true });
    } catch {}
  }
  globalThis.window = globalThis;
  globalThis.document = w.document;
  globalThis.location = w.location;
  for (const k of ['AbortController', 'AbortSignal']) globalThis[k] = w[k];
  const ctors = [w.Element, w.ShadowRoot];
  for (const C of ctors) {
    if (typeof C.prototype.setHTMLUnsafe !== 'function') {
      C.prototype.setHTMLUnsafe = function (html) {
        this.innerHTML = html;
      };
    }
  }
  if (moveBefore) {
    // https://dom.spec.whatwg.org/#dom-parentnode-movebefore (validity checks only)
    w.Element.prototype.moveBefore = function (node, child) {
      if (node.isConnected !== this.isConnected || node.getRootNode() !== this.getRootNode()) {
        throw new w.DOMException('State-preserving atomic move cannot be performed', 'HierarchyRequestError');
      }
      this.insertBefore(node, child);
    };
  }
  await new Promise((resolve) => {
    if (w.document.readyState === 'complete') resolve();
    else w.addEventListener('load', resolve);
  });
  globalThis.jsdomWindow = w;
  console.warn = (...args) => {
    warnings.push(args);
  };
  process.on('unhandledRejection', (e) => {
    unhandled.push(e);
  });
  host.install();
}

export const reported = [];

/**
 * The host environment: every pending callback is listed in `tasks` and runs
 * only when the explorer says so.
 */
class Host {
  tasks = [];
  seq = 0;
  mode = 'scheduler';
  rafPairing = true;
  log = null;

  reset(mode = 'scheduler', { rafPairing = true, idle = true } = {}) {
    this.tasks = [];
    this.seq = 0;
    this.rafPairing = rafPairing;
    this.setMode(mode, { idle });
  }

  setMode(mode, { idle = true } = {}) {
    this.mode = mode;
    if (mode === 'scheduler') {
      globalThis.scheduler = { postTask: (cb, options) => this.postTask(cb, options) };
    } else {
      delete globalThis.scheduler;
    }
    if (idle) {
      globalThis.requestIdleCallback = (cb) => this.add('idle', () => cb({ didTimeout: false, timeRemaining: () => 5 })).id;
      globalThis.cancelIdleCallback = (id) => this.cancel(id);
    } else {
      delete globalThis.requestIdleCallback;
      delete globalThis.cancelIdleCallback;
    }
  }

  add(kind, fn, info = {}) {
    const task = { id: ++this.seq, kind, fn, ...info };
    this.tasks.push(task);
    return task;
  }

  cancel(id) {
    const i = this.tasks.findIndex((t) => t.id === id);
    if (i >= 0) this.tasks.splice(i, 1);
  }

  postTask(cb, options = {}) {
    return new Promise((resolve, reject) => {
      this.add('task', () => {
        try {
          resolve(cb());
        } catch (e) {
          reject(e);
        }
      }, { priority: options?.priority, delay: options?.delay });
    });
  }

  install() {
    globalThis.requestAnimationFrame = (cb) => this.add('raf', () => cb(0)).id;
    globalThis.cancelAnimationFrame = (id) => this.cancel(id);
    globalThis.setTimeout = (cb, delay = 0, ...args) => this.add('timer', () => cb(...args), { delay }).id;
    globalThis.clearTimeout = (id) => this.cancel(id);
    const self = this;
    globalThis.MessageChannel = class {
      constructor() {
        const make = () => ({ onmessage: null, addEventListener(_t, l) { this.onmessage = l; }, start() {}, close() {} });
        this.port1 = make();
        this.port2 = make();
        this.port1.postMessage = (data) => self.add('message', () => this.port2.onmessage?.({ data }));
        this.port2.postMessage = (data) => self.add('message', () => this.port1.onmessage?.({ data }));
      }
    };
    this.reset();
  }

  /** Host callbacks that may run next. With rafPairing, the 100ms fallback
   * timer of a pending frame is not offered while a frame is pending. */
  pending() {
    if (!this.rafPairing) return this.tasks;
    const hasRaf = this.tasks.some((t) => t.kind === 'raf');
    return hasRaf ? this.tasks.filter((t) => !(t.kind === 'timer' && t.delay >= 50)) : this.tasks;
  }

  /** Runs one pending host callback as its own task. */
  async run(task) {
    const i = this.tasks.indexOf(task);
    if (i < 0) throw new Error('harness: task is not pending');
    this.tasks.splice(i, 1);
    task.fn();
    await drain();
  }

  /** Runs everything in FIFO order until the host is idle. */
  async settle(limit = 2000) {
    await drain();
    let n = 0;
    while (this.pending().length > 0) {
      if (++n > limit) throw new Error('livelock: host did not become idle');
      await this.run(this.pending()[0]);
    }
  }
}

export const host = new Host();
