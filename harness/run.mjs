// Worker: node run.mjs SCENARIOS TRACE BUNDLE_DIR VERSION SEED
// Performs the scenarios of one file and writes the recorded events.
import fs from 'node:fs';
import path from 'node:path';
import { Scenario } from './driver.mjs';

const [scenarioFile, traceFile, bundleDir, version, seed] = process.argv.slice(2);
const code = {
  ok: fs.readFileSync(path.join(bundleDir, 'sdk-ok.js'), 'utf8'),
  absent: fs.readFileSync(path.join(bundleDir, 'sdk-absent.js'), 'utf8'),
};
const out = fs.openSync(traceFile, 'w');
let buffer = '';
let count = 0;
for (const line of fs.readFileSync(scenarioFile, 'utf8').split('\n')) {
  if (!line) continue;
  const script = JSON.parse(line);
  const events = await new Scenario(script, code[script.renderer ?? 'ok'], version, seed).run();
  for (const e of events) buffer += `${JSON.stringify(e)}\n`;
  count += events.length;
  if (buffer.length > 1 << 20) {
    fs.writeSync(out, buffer);
    buffer = '';
  }
}
fs.writeSync(out, buffer);
fs.closeSync(out);
process.stdout.write(`${count}\n`, () => process.exit(0));
