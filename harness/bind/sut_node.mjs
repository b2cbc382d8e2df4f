// The Node.js package, told what to do by lines of JSON. (Its module is the first argument.)
import { writeSync } from 'node:fs';
import { createInterface } from 'node:readline';
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';

const { watch } = await import(process.argv[2]);

const say = (o) => {
  let b = Buffer.from(JSON.stringify(o) + '\n');
  while (b.length) {
    try {
      b = b.subarray(writeSync(1, b));
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
    }
  }
};

process.on('uncaughtException', (e) => {
  if (e.message !== 'on purpose') {
    say({ r: 'uncaught', error: String(e.stack) });
    process.exit(70);
  }
});

const ws = new Map();
let ending = 'now';
const spin = (us) => {
  const end = performance.now() + us / 1000;
  let junk = [];
  while (performance.now() < end) junk.push({ a: junk.length });
};

const workers = new Map();
if (!isMainThread) {
  const c = workerData;
  globalThis.kept = watch(c.path, (e) => {
    parentPort.postMessage({ e: c.id, t: e.effectTime, path: e.pathName, assoc: e.associatedPathName, et: e.effectType, pt: e.pathType, keys: Object.keys(e).sort() });
  });
  parentPort.postMessage('open');
} else createInterface({ input: process.stdin }).on('line', (line) => {
  const c = JSON.parse(line);
  try {
    if (c.op === 'open') {
      const w = { n: 0 };
      ws.set(c.id, w);
      w.watch = watch(c.path, (e) => {
        w.n += 1;
        say({ e: c.id, t: e.effectTime, path: e.pathName, assoc: e.associatedPathName, et: e.effectType, pt: e.pathType, keys: Object.keys(e).sort() });
        if (c.slow) spin(c.slow);
        if (c.raises && w.n % c.raises === 0) throw new Error('on purpose');
      });
      say({ r: 'open', id: c.id });
    } else if (c.op === 'close' || c.op === 'again') {
      const ok = ws.get(c.id).watch.close();
      say({ r: c.op, id: c.id, ok });
    } else if (c.op === 'lose') {
      // (It's never closed, and should go on.)
      ws.delete(c.id);
      if (global.gc) global.gc();
      say({ r: 'lose', id: c.id });
    } else if (c.op === 'ending') {
      // naturally, once nothing is left to do, or now
      ending = c.how;
      say({ r: 'ending' });
      if (ending === 'exit') process.exit(0);
    } else if (c.op === 'worker') {
      const w = new Worker(new URL(import.meta.url), { argv: [process.argv[2]], workerData: c });
      w.on('message', (m) => {
        if (m === 'open') say({ r: 'worker', id: c.id });
        else say(m);
      });
      w.on('error', (e) => say({ r: 'worker', id: c.id, error: String(e.message) }));
      workers.set(c.id, w);
    } else if (c.op === 'terminate') {
      workers.get(c.id).terminate().then(() => say({ r: 'terminate', id: c.id }));
    } else if (c.op === 'busy') {
      spin(c.us);
      if (global.gc) global.gc();
      say({ r: 'busy' });
    } else if (c.op === 'forget') {
      ws.clear();
      if (global.gc) global.gc();
      say({ r: 'forget' });
    }
  } catch (e) {
    say({ r: c.op, id: c.id, error: String(e.message) });
  }
}).on('close', () => {
  if (ending === 'now') process.exit(0);
});
