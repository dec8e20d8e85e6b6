// C15 Event listeners against a model of the registrations of every element.
import { words } from '../lib/explore.mjs';

export default {
  id: 'C15',
  rule: 'an item is a history of values bound to an event attribute (directly, keyed, from a component or in a list), of mounting and unmounting, and of dispatches between and during the updates; every dispatch must invoke exactly the listeners of a model of the registration, in its order among other listeners; distinct outcomes are distinct invocation logs',
  assumptions: ['options of a listener are not modified while it is bound', 'an absent option is not replaced by an explicit false', 'a once-listener that has fired is not renewed by a listener with the same options'],
  async run(ctx) {
    const { B, dom } = ctx;
    const { host, reported, drain } = dom;
    const { html, createBind, createComponent, Runtime, DOMAdapter, DOMRoot } = B;
    const T = ctx.thorough;
    const adapter = new DOMAdapter();
    const Give = createComponent(function Give({ v }) {
      return v();
    });
    let log;
    const invoked = (name, e, self) => {
      if (e.passiveProbe) e.preventDefault();
      log.push(`${name}${e.eventPhase === 1 ? 'c' : e.eventPhase === 2 ? 't' : 'b'}${e.defaultPrevented ? 'p' : ''}${self ? '' : '!this'}`);
    };
    // Every listener of the alphabet: [name, kind, options].
    const ALPHABET = {
      null: null,
      undefined: undefined,
      f: ['fn', {}],
      g: ['fn', {}],
      o: ['obj', {}],
      c: ['obj', { capture: true }],
      d: ['obj', { capture: true }],
      fc: ['fn', { capture: true }],
      n: ['obj', { once: true }],
      m: ['obj', { once: true }],
      p: ['obj', { passive: true }],
      s: ['obj', { signal: 0 }],
      t: ['obj', { signal: 1 }],
      cs: ['obj', { capture: true, signal: 0 }],
      co: ['fn', { capture: true, once: true }],
      x5: 'bad',
      xfalse: 'bad',
      xobj: 'bad',
      xhandle: 'bad',
      xstr: 'bad',
    };
    const BAD = { x5: 5, xfalse: false, xobj: {}, xhandle: { handleEvent: 1 }, xstr: 'alert(1)' };
    function makeListeners(aborters) {
      const out = {};
      for (const [name, def] of Object.entries(ALPHABET)) {
        if (def === 'bad') out[name] = BAD[name];
        else if (def == null) out[name] = def;
        else {
          const [kind, options] = def;
          const listener = kind === 'fn'
            ? (e) => invoked(name, e, true)
            : {
                handleEvent(e) {
                  invoked(name, e, this === listener);
                },
              };
          for (const [k, v] of Object.entries(options)) listener[k] = k === 'signal' ? aborters[v].signal : v;
          out[name] = listener;
        }
      }
      return out;
    }
    const sameOptions = (a, b) => ['capture', 'once', 'passive', 'signal'].every((k) => a[1][k] === b[1][k]);

    // The registrations of one element as a model: an ordered list.
    class Target {
      regs = []; // {name, def, external}
      externals = 0;
      bind(name, aborted) {
        const def = ALPHABET[name];
        const i = this.regs.findIndex((r) => !r.external);
        const old = this.bound;
        if (old !== undefined && def != null && sameOptions(old, def)) {
          if (i >= 0) this.regs[i] = { name, def };
        } else {
          if (i >= 0) this.regs.splice(i, 1);
          if (def != null && !(def[1].signal !== undefined && aborted[def[1].signal])) this.regs.push({ name, def });
        }
        this.bound = def ?? undefined;
      }
      abort(k) {
        this.regs = this.regs.filter((r) => r.external || r.def[1].signal !== k);
      }
      external() {
        this.regs.push({ name: `X${this.externals++}`, external: true, def: ['fn', {}] });
      }
      dispatch(atTarget, probe) {
        const out = [];
        let prevented = false;
        const call = (r, phase) => {
          if (probe && !r.def[1].passive) prevented = true;
          out.push(`${r.name}${phase}${prevented ? 'p' : ''}`);
          if (r.def[1].once) this.regs = this.regs.filter((x) => x !== r);
        };
        const regs = this.regs.slice();
        for (const r of regs) if (r.def[1].capture) call(r, atTarget ? 't' : 'c');
        for (const r of regs) if (!r.def[1].capture) call(r, atTarget ? 't' : 'b');
        return out;
      }
    }
    const stable = Object.fromEntries([...'abc'].map((k) => [k, () => log.push(k)]));
    const fire = (node, probe) => {
      log = [];
      const e = new jsdomWindow.Event('click', { bubbles: true, cancelable: true });
      if (probe) e.passiveProbe = true;
      node.dispatchEvent(e);
      if (reported.length > 0) {
        const r = reported.splice(0);
        return `a listener threw ${r[0]}`;
      }
      return log.join(' ');
    };
    const wrapValue = (v, wrapping) => {
      switch (wrapping) {
        case 'v':
          return v;
        case 'k':
          return createBind(v).withKey('k');
        case 'c':
          return Give({ v: () => v });
        case 'l':
          return [v];
      }
    };

    // One element; steps: 'value' or 'wrapping:value', plus '+' (another
    // listener is added from outside), '/' (unmount), 'A0' (abort).
    async function single([mode, steps, when]) {
      host.reset('scheduler');
      const aborters = [new AbortController(), new AbortController()];
      const aborted = [false, false];
      const L = makeListeners(aborters);
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      const tpl = (v, n) => html`<p n=${n} @click=${v}><q></q></p>`;
      const other = html`<u></u>`;
      let n = 0;
      let target;
      let element = null;
      let wrapping = null;
      let total = '';
      let previous;
      const gone = [];
      const checkAll = (what, probe) => {
        for (const [g, m] of gone) {
          const exp = m.dispatch(true, false).join(' ');
          const got = fire(g, false);
          if (got !== exp) return `${what}, an unmounted element invokes ${got}, expected ${exp || 'nothing'}`;
        }
        if (element === null) return;
        for (const at of [true, false]) {
          const exp = target.dispatch(at, probe).join(' ');
          const got = fire(at ? element : element.firstChild, probe);
          if (got !== exp) return `${what}, a click ${at ? 'on the element' : 'inside of it'} invokes ${got || 'nothing'}, expected ${exp || 'nothing'}`;
          total += `${got};`;
        }
      };
      for (const step of steps) {
        if (step === '+') {
          if (element === null) continue;
          const name = `X${target.externals}`;
          target.external();
          element.addEventListener('click', (e) => invoked(name, e, true));
        } else if (step[0] === 'A') {
          const k = Number(step[1]);
          aborters[k].abort();
          aborted[k] = true;
          target?.abort(k);
          for (const [, m] of gone) m.abort(k);
        } else {
          n++;
          const opts = mode === 'sync' ? { flushSync: true } : { priority: 'user-blocking' };
          let state = 'pending';
          const done = () => {
            if (step === '/') {
              if (element !== null) {
                target.bind('null', aborted);
                gone.push([element, target]);
              }
              element = null;
              return;
            }
            const [w, name] = step.includes(':') ? step.split(':') : ['v', step];
            if (element === null) {
              target = new Target();
              element = container.firstElementChild;
              wrapping = w;
            } else if (wrapping !== w) {
              // Another kind of value replaces the binding.
              target.bind('null', aborted);
              wrapping = w;
            }
            target.bind(name, aborted);
          };
          const bad = step !== '/' && ALPHABET[step.split(':').at(-1)] === 'bad';
          let content;
          if (step === '/') content = other;
          else {
            const [w, name] = step.includes(':') ? step.split(':') : ['v', step];
            content = tpl(wrapValue(L[name], w), n);
          }
          root.render(content, opts).finished.then(() => (state = 'resolved'), (e) => (state = e));
          if (mode === 'async' && !bad) {
            // Click before, between and after the host callbacks.
            let committed = false;
            const look = () => {
              const now = step === '/' ? container.querySelector('u') !== null : container.querySelector('p')?.getAttribute('n') === `${n}`;
              if (now && !committed) {
                committed = true;
                done();
              }
              return checkAll(committed ? `after update ${n}` : `before the commit of update ${n}`, false);
            };
            let p = look();
            if (p) return p;
            await drain();
            while (host.pending().length > 0) {
              await host.run(host.pending()[0]);
              if ((p = look())) return p;
            }
            if (!committed) return `update ${n} was not committed`;
          } else await host.settle();
          if (bad) {
            if (!(state instanceof Error) && step !== previous) return `${step} was not rejected but ${state}`;
            // The previous listener may be still bound or already unbound.
            if (element !== null) {
              const exp = target.dispatch(true, false).filter((x) => !x.startsWith('X'));
              const got = fire(element, false).split(' ').filter((x) => x !== '' && !x.startsWith('X'));
              if (got.length > 0 && got.join() !== exp.join()) return `after rejecting ${step} a click invokes ${got}`;
              // Nothing tells whether a listener that no longer reacts is still bound.
              if (exp.length === 0 && target.bound !== undefined) return;
              const now = new Target();
              now.bound = got.length > 0 || exp.length === 0 ? target.bound : undefined;
              now.externals = target.externals;
              now.regs = target.regs.filter((r) => r.external || got.length > 0);
              target = now;
            } else if (container.querySelector('p') !== null && fire(container.querySelector('p'), false) !== '') return `${step} was rejected but bound`;
            total += 'bad;';
            previous = step;
            continue;
          }
          if (state !== 'resolved') return `update ${n} failed: ${state.stack ?? state}`;
          if (mode === 'sync') done();
          previous = step;
        }
        if (when === 'each') {
          const p = checkAll(`after step ${step}`, true);
          if (p) return p;
        }
      }
      ctx.count('transitions', steps.length);
      ctx.outcome(total);
      if (when === 'end') return checkAll('at the end', true);
    }
    const histories = function* (al, k, wrap = (x) => x) {
      for (const w of words(al.length, k)) yield w.map((i) => wrap(al[i]));
    };
    const good = Object.keys(ALPHABET).filter((k) => ALPHABET[k] !== 'bad');
    await ctx.space('values', (function* () {
      for (let k = 1; k <= (T ? 5 : 4); k++) for (const h of histories([...good, '/'], k)) yield ['sync', h, 'each'];
      for (const h of histories([...good, '/'], 3)) yield ['sync', h, 'end'];
      const few = ['null', 'f', 'g', 'o', 'c', 'n', 'p', '/'];
      for (const h of histories(few, T ? 6 : 5)) yield ["sync", h, "end"];
    })(), single);
    await ctx.space('places', (function* () {
      const few = ['null', 'f', 'o', 'c', 'd', 'n', 's', 'A0'];
      for (const [a, b, c, d] of histories(few, 4)) if (T || a !== 'A0') yield ['sync', ['f', '+', a, '+', b, '+', c, d], 'each'];
      for (const a of good) for (const [b, c, d] of histories(few, 3)) yield ['sync', [a, '+', b, c, '+', d], 'end'];
    })(), single);
    await ctx.space('moments', (function* () {
      for (const h of histories(T ? good : ['null', 'f', 'g', 'c', 'n', 'm', 'p', 's'], 3)) yield ['async', [...h, '/'], 'each'];
      for (const h of histories(['f', 'o', '/', 'c', 'null', 'A0'], T ? 5 : 4)) yield ['async', h, 'each'];
    })(), single);
    await ctx.space('wrapped', (function* () {
      const al = ['null', 'f', 'o', 'c', 'n'].flatMap((v) => ['v', 'k', 'c', 'l'].map((w) => `${w}:${v}`));
      for (const h of histories(al, T ? 4 : 3)) yield ['sync', h, 'each'];
      for (const [a, b] of histories([...al, '/'], 2)) yield ['async', [a, '+', b, '/', a], 'each'];
    })(), single);
    await ctx.space('rejected', (function* () {
      const bad = Object.keys(BAD);
      for (const x of bad) for (const [a, b, c] of histories(['null', 'f', 'c', 'n', 'k:f', '/', x, `k:${x}`, `c:${x}`], 3)) if ([a, b, c].some((y) => y.endsWith(x))) yield ['sync', [a, b, c, 'g'], 'each'];
    })(), single);

    // Lists of listeners: every one is bound, whatever is added or removed.
    await ctx.space('several', (function* () {
      const lists = [[], ['f'], ['g'], ['f', 'g'], ['g', 'f'], ['c', 'f'], ['f', 'c', 'o'], ['o', 'f'], ['null', 'f'], ['g', 'o', 'f']];
      for (const keyed of [false, true]) for (let k = 2; k <= (T ? 4 : 3); k++) for (const w of words(lists.length, k)) yield [keyed, w.map((i) => lists[i])];
    })(), async ([keyed, hist]) => {
      host.reset('scheduler');
      const L = makeListeners([new AbortController(), new AbortController()]);
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      for (const list of hist) {
        let error;
        root.render(html`<p @click=${list.map((x) => (keyed ? createBind(L[x]).withKey(x) : L[x]))}></p>`, { flushSync: true }).finished.catch((e) => (error = e));
        await host.settle();
        if (error) return `failed: ${error.stack} ${error.cause?.stack}`;
        const got = fire(container.firstElementChild, false).split(' ').filter(Boolean).sort().join(' ');
        const exp = list.filter((x) => x !== 'null').map((x) => `${x}t`).sort().join(' ');
        if (got !== exp) return `the list ${list} invokes ${got}, expected ${exp}`;
        ctx.outcome(exp);
      }
      ctx.count('transitions', hist.length);
    });

    // Lists of elements: every item keeps its own listener while it is moved,
    // updated, inserted and removed; removed items keep none.
    await ctx.space('items', (function* () {
      const orders = ['', 'a', 'ab', 'ba', 'abc', 'cab', 'acb', 'cba', 'bc'];
      for (const w of words(orders.length, T ? 4 : 3)) for (const change of [0, 1, 2]) yield [w.map((i) => orders[i]), change];
    })(), async ([hist, change]) => {
      host.reset('scheduler');
      const container = document.createElement('div');
      const root = new DOMRoot(container, new Runtime(adapter));
      const Item = createComponent(function Item({ k, listener }) {
        return html`<li id=${k} @click=${listener}><b></b></li>`;
      });
      const gone = new Set();
      for (const [n, order] of hist.entries()) {
        const now = new Set(container.querySelectorAll('li'));
        const outer = (e) => log.push(`outer${n}`);
        const listenerOf = (k) => (change === 0 ? stable[k] : change === 1 || k === 'a' ? (e) => log.push(`${k}${n}`) : null);
        let error;
        root.render(html`<ul @click=${outer}><${[...order].map((k) => Item({ k, listener: listenerOf(k) }).withKey(k))}></ul>`, { flushSync: true }).finished.catch((e) => (error = e));
        await host.settle();
        if (error) return `failed: ${error.stack} ${error.cause?.stack}`;
        const lis = new Set(container.querySelectorAll('li'));
        for (const li of now) if (!lis.has(li)) gone.add(li);
        for (const li of lis) {
          const k = li.id;
          const own = change === 0 ? `${k}` : change === 1 || k === 'a' ? `${k}${n}` : null;
          const exp = [...(own === null ? [] : [own]), `outer${n}`].join(' ');
          const got = fire(li.firstChild, false);
          if (got !== exp) return `after ${hist.slice(0, n + 1)} a click in item ${k} invokes ${got}, expected ${exp}`;
        }
        for (const li of gone) {
          const got = fire(li, false);
          if (got !== '') return `after ${hist.slice(0, n + 1)} a click on removed item ${li.id} invokes ${got}`;
        }
      }
      ctx.count('transitions', hist.length);
      ctx.outcome(hist.join());
    });
    ctx.count('states', ctx.distinctSet.size);
  },
};
