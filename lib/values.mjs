// Values of every kind, to be handed through by identity: nothing may call,
// await, iterate, freeze or convert them.
export function exotic(B) {
  const log = [];
  const touched = (what) => log.push(what);
  const revoked = Proxy.revocable({}, {});
  revoked.revoke();
  const values = {
    undef: undefined, null: null, true: true, false: false, zero: 0, mzero: -0, nan: NaN, empty: '', big: 0n, sym: Symbol('s'),
    obj: {}, arr: [], frozen: Object.freeze({}), nullproto: Object.create(null),
    fn: function () {
      touched('function called');
      return 'called';
    },
    arrow: () => {
      touched('arrow function called');
      return 'called';
    },
    cls: class {
      constructor() {
        touched('class constructed');
      }
    },
    asyncfn: async () => touched('async function called'),
    promise: Promise.resolve('p'),
    thenable: {
      // biome-ignore lint: a thenable on purpose
      then() {
        touched('thenable awaited');
      },
    },
    iterable: {
      *[Symbol.iterator]() {
        touched('iterated');
        yield 1;
      },
    },
    convertible: {
      toString() {
        touched('converted to a string');
        return 's';
      },
      valueOf() {
        touched('converted');
        return 1;
      },
      [Symbol.toPrimitive]() {
        touched('converted to a primitive');
        return 1;
      },
    },
    revoked: revoked.proxy,
    element: B.html`<b></b>`,
    signal: new B.Atom(1),
    error: new Error('a value'),
    date: new Date(0),
    map: new Map([[1, 2]]),
  };
  return { values, log };
}
