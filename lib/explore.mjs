// Stateless exploration of the real SDK under a controlled environment. A scenario is a closed program (one or more
// concurrent user programs) plus a World whose environment steps are explorer-chosen events. Every maximal sequence
// of (event, answer) choices is executed, on a fresh module instance, by prefix replay; nothing is sampled.
import { Fail } from './ctx.mjs';
import { quiesce, real, unhandled } from './world.mjs';

class Divergence extends Error {}

/**
 * scenario.make() -> {
 *   world, programs: [{name, body: async (api) => value}],   api.point(label): a scheduling point
 *   final?(run), step?(run)
 * }
 * opts.gaps: also fire any two pending events back to back, that many microtasks apart (once per execution)
 * opts.pick(menu, depth, run): a fixed schedule instead of the prefix
 * opts.bound: max total cost of non-default choices per execution (cost(option) default: 0)
 */
export async function execute(scenario, prefix, opts) {
  const s = scenario.make();
  const { world } = s;
  const run = { scenario, world, log: [], counts: [], options: [], outcomes: {}, spent: 0, state: s, stateKeys: [] };
  const un0 = unhandled.length;
  world.enter();
  let aborted = true;
  try {
    let live = s.programs.length;
    for (const p of s.programs) {
      const api = { point: (label) => new Promise((r) => world.addEvent(label, [{ label: '', fire: r }])), world, run };
      const start = async () => p.body(api);
      let pr;
      const go = () => {
        pr = start();
        pr.then(
          (value) => {
            run.outcomes[p.name] = { value };
            live--;
            world.bump();
          },
          (error) => {
            run.outcomes[p.name] = { rejected: error };
            live--;
            world.bump();
          },
        );
      };
      if (p.immediate) go();
      else world.addEvent(`start ${p.name}`, [{ label: '', fire: go }]);
    }
    const maxSteps = opts.maxSteps ?? 80;
    for (let depth = 0; ; depth++) {
      await quiesce(opts.idle ?? 2);
      const menu = [];
      for (const ev of world.pending)
        for (const a of ev.answers) {
          const cost = opts.cost ? opts.cost(ev, a, world) : 0;
          if (opts.bound !== undefined && run.spent + cost > opts.bound) continue;
          menu.push({ ev, a, cost, name: a.label ? `${ev.label} → ${a.label}` : ev.label });
        }
      // two events in the same breath, `gap` microtasks apart: the second lands before the SDK has come to rest
      if (opts.gaps && !run.tight) {
        const singles = menu.slice();
        for (const x of singles)
          for (const y of singles) {
            if (x.ev === y.ev || run.spent + x.cost + y.cost > (opts.bound ?? 0)) continue;
            for (const gap of opts.gaps) menu.push({ ...x, cost: x.cost + y.cost, then: y, gap, name: `${x.name} +${gap}µ ${y.name}` });
          }
      }
      run.stateKeys.push(
        `${world.pending.map((e) => e.label).sort()}|${world.requests.map((r) => `${r.method} ${r.path}:${r.answer ?? '?'}`).sort()}|${Object.entries(run.outcomes)
          .map(([k, o]) => `${k}=${'rejected' in o ? 'R' : o.value?.error ? 'E' : 'V'}`)
          .sort()}`,
      );
      s.step?.(run);
      if (menu.length === 0) {
        if (live === 0) break;
        if (world.timers.length && (world.timersFired ?? 0) < (opts.maxTimers ?? 500)) {
          world.fireTimer();
          run.log.push('timer');
          run.counts.push(1);
          continue;
        }
        // last resort: give the host real time before calling it a hang
        const before = world.activity;
        await new Promise((r) => real.setTimeout(r, 60));
        if (world.activity !== before || world.pending.length) {
          depth--;
          continue;
        }
        run.hung = true;
        break;
      }
      if (depth >= maxSteps) {
        run.endless = true;
        break;
      }
      const i = opts.pick ? opts.pick(menu, depth, run) : depth < prefix.length ? prefix[depth] : 0;
      if (i >= menu.length) throw new Divergence(`replay diverged at step ${depth}: option ${i} of ${menu.map((m) => m.name)}`);
      const pick = menu[i];
      run.log.push(pick.name);
      run.counts.push(menu.length);
      run.spent += pick.cost;
      world.pending = world.pending.filter((e) => e !== pick.ev && e !== pick.then?.ev);
      pick.a.fire();
      if (pick.then) {
        run.tight = true;
        for (let g = 0; g < pick.gap; g++) await null;
        pick.then.a.fire();
      }
    }
    await quiesce(opts.idle ?? 2);
    run.unhandled = unhandled.slice(un0);
    unhandled.length = un0;
    aborted = false;
  } finally {
    world.leave();
    if (aborted) unhandled.length = un0;
  }
  return run;
}

export async function explore(ctx, scenario, opts = {}) {
  const states = new Set();
  let prefix = [];
  let runs = 0;
  let prevLog = null;
  const single = ctx.only !== null && ctx.only.startsWith(`${scenario.key} ⟨`) ? JSON.parse(ctx.only.slice(scenario.key.length + 2, -1)) : null;
  if (ctx.only !== null && !single) return 0;
  if (ctx.only === null && !ctx.want(scenario.key)) return 0;
  if (single) prefix = single;
  for (;;) {
    const key = `${scenario.key} ⟨${JSON.stringify(prefix)}⟩`;
    ctx.beat(key);
    let run;
    run = await execute(scenario, prefix, opts);
    runs++;
    // nondeterminism in the harness would make the enumeration meaningless: replay some executions and compare
    if (runs === 1 || runs % 64 === 0) {
      const again = await execute(scenario, prefix, opts);
      if (again.log.join('\n') !== run.log.join('\n'))
        throw new Divergence(`the same choices gave two executions:\n${run.log.join('\n')}\n--\n${again.log.join('\n')}`);
      ctx.count('replayed_executions');
    }
    if (prevLog) for (let i = 0; i < prefix.length - 1; i++) if (prevLog[i] !== run.log[i]) throw new Divergence(`prefix replay diverged at ${i}: ${prevLog[i]} vs ${run.log[i]}`);
    prevLog = run.log;
    const fresh = Math.max(0, prefix.length - 1);
    ctx.transitions += run.log.length - Math.min(fresh, run.log.length);
    ctx.traces++;
    ctx.evaluations++;
    for (const k of run.stateKeys) states.add(k);
    const choices = run.log.map((_, i) => (i < prefix.length ? prefix[i] : 0));
    const full = `${scenario.key} ⟨${JSON.stringify(choices)}⟩`;
    try {
      if (run.endless) throw new Fail('the operation keeps acting on the environment without end', run.log.slice(0, 40));
      if (run.hung && !scenario.mayHang) throw new Fail('the operation never settles', run.log);
      if (run.unhandled.length && !scenario.mayLeaveUnhandled) throw new Fail('an unhandled promise rejection escaped', { log: run.log, error: run.unhandled[0] });
      await run.state.final?.(run);
      ctx.note(full, true, () => run.log.join(' · '));
    } catch (e) {
      if (e instanceof Fail) e.detail = e.detail === undefined ? { schedule: run.log } : { schedule: run.log, detail: e.detail };
      ctx.record(full, e);
      if (ctx.failures.size > 25) break;
    }
    if (single) break;
    let i = run.log.length - 1;
    while (i >= 0 && choices[i] + 1 >= run.counts[i]) i--;
    if (i < 0) break;
    prefix = choices.slice(0, i + 1);
    prefix[i]++;
    if (opts.maxRuns && runs >= opts.maxRuns) throw new Error(`${scenario.key}: more than ${opts.maxRuns} executions - bound the scenario`);
  }
  ctx.states += states.size;
  return runs;
}
