#!/usr/bin/env node
// Runs the WebAssembly build of this program: the system calls it asks for, on stdin and stdout.
const fs = require('fs');
const exe = process.env.HIVEBARE_WASM;
let memory;
const view = (p, n) => new Uint8Array(memory.buffer, p >>> 0, n >>> 0);
const env = {
  read(p, n) {
    for (;;) {
      try {
        return fs.readSync(0, view(p, n));
      } catch (e) {
        if (e.code === 'EOF') return 0;
        if (e.code !== 'EAGAIN') throw e;
      }
    }
  },
  write(fd, p, n) {
    return fs.writeSync(fd, view(p, n));
  },
  exit(c) {
    process.exit(c);
  },
};
const inst = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(exe)), { env });
memory = inst.exports.memory;
inst.exports.hive_main();
