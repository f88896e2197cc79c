"""P18: main loop without audio."""
from klangsim import patch
from klangsim.core import StopRun
from klangsim.patch import INTERVAL
from klangsim.runner import Property


class P18(Property):
    id = 'P18'
    batch = 250
    quick_runs = 24000
    quick_seconds = 45
    thorough_runs = 150000
    thorough_seconds = 400
    rule = ('A run drives a patch without audio by a simulated clock with its own resolution, late and early sleeps, stalls and '
            'cycle costs, and checks each cycle; non-trivial: at least two cycles ran.')
    state_measure = 'distinct (start, resolution, cost and sleep error classes) per cycle'
    real = ['klang.klang', 'klang.clock', 'klang.execution']
    stubs = ['clock and sleep']
    assumptions = ['the clock never runs backwards']
    shrink_lists = ('sleeps', 'costs', 'drift')
    shrink_numbers = {'nCycles': 2, 'start': 0.}

    def gen(self, rng, tier, index):
        cost = lambda: rng.choice([0., 0., 1e-6, .001, INTERVAL * .99, INTERVAL, INTERVAL * 1.01, rng.uniform(0, INTERVAL * .9),
                                   rng.uniform(0, 6 * INTERVAL), 60.])
        late = lambda: rng.choice([0., 0., 1e-9, 1e-4, rng.uniform(0, .02), INTERVAL, -1e-9, -1e-4, -rng.uniform(0, INTERVAL), 5.])
        good = rng.random() < .35
        return {'start': rng.choice([0., INTERVAL, rng.uniform(0, 10), rng.randint(1, 10 ** 6) * INTERVAL, rng.uniform(0, 1e7)]),
                'resolution': rng.choice([0., 0., 1e-9, 1e-6, .001, 1 / 64, INTERVAL]),
                'costs': [rng.choice([0., 1e-4, rng.uniform(0, .8 * INTERVAL)]) if good else cost() for _ in range(rng.randint(1, 6))],
                'sleeps': [rng.choice([0., 1e-6, rng.uniform(0, .1 * INTERVAL)]) if good else late() for _ in range(rng.randint(1, 6))],
                'good': good, 'nCycles': rng.choice([3, 30, 120]) if rng.random() < .98 else 1500}

    def execute(self, sc, ctx, world):
        from klang.clock import ClockMixin
        from klang.klang import run_klang
        patch.make_classes()
        res = sc['resolution'] if not sc['good'] else 0.
        source = patch.Source({})
        probe = patch.Probe()
        source.output.connect(probe.input)
        world.now = sc['start']
        nSleeps = [0]
        reads = [0]
        ticks = []          # (clock value, time the cycle began, time it ended)
        slack = [0.]        # How much the last sleep was cut short

        def read_clock():
            reads[0] += 1
            ctx.check(reads[0] < 2000 * (sc['nCycles'] + 10), 'stalled', 'the main loop spins without running any cycle')
            return world.now if not res else int(world.now / res) * res

        def on_sleep(seconds):
            i = nSleeps[0]
            nSleeps[0] += 1
            ctx.check(i < 200 * (sc['nCycles'] + 10), 'stalled', 'the main loop sleeps without running any cycle')
            err = sc['sleeps'][i % len(sc['sleeps'])] if sc['sleeps'] else 0.
            if i > 100 * (sc['nCycles'] + 10):
                err = 0.
            took = max(0., seconds + err)
            if seconds and took < seconds:
                ctx.fault('sleep ends early')
            elif seconds and err > 0:
                ctx.fault('sleep ends late')
            slack[0] = max(0., seconds - took)
            world.now += took

        world.read_clock = read_clock
        world.on_sleep = on_sleep

        def begin(cycle):
            if ticks:
                ticks[-1][2] = self.ended
            if cycle >= sc['nCycles']:
                raise StopRun()
            ticks.append([ClockMixin.clock(), world.now, None, slack[0]])
            cost = sc['costs'][cycle % len(sc['costs'])] if sc['costs'] else 0.
            if cost > INTERVAL:
                ctx.fault('cycle takes longer than its interval')
            world.now += cost
            self.ended = world.now

        self.ended = world.now
        source.begin = begin
        try:
            run_klang(source)
            ctx.fail('loop-ended', 'the main loop returned')
        except StopRun:
            pass
        ctx.check(len(probe.cycles) == sc['nCycles'], 'cycles', '%d cycles of the source, %d of the block behind it', sc['nCycles'], len(probe.cycles))
        prev = None
        eps = 1e-9 + 4e-16 * (sc['start'] + world.now)
        for k, (tick, began, ended, cut) in enumerate(ticks):
            nr = round(tick / INTERVAL)
            ctx.check(abs(tick - nr * INTERVAL) <= eps, 'off-grid', 'cycle %d has clock value %r, %r buffers', k, tick, tick / INTERVAL)
            ctx.check(began >= tick - eps - cut - 1e-12, 'early', 'cycle %d runs at %r, before its time %r', k, began, tick)
            if prev is not None:
                pNr, pEnd = prev
                ctx.check(nr > pNr, 'same-time', 'cycle %d has clock value %r (buffer %d), the one before had buffer %d', k, tick, nr, pNr)
                # First grid point after both the previous cycle's end and its own time
                due = max(pNr + 1, -(-(pEnd - eps) // INTERVAL))
                latest = max(pNr + 1, -(-(pEnd + eps) // INTERVAL))
                readEarly = max(pNr + 1, -(-(pEnd - res - eps) // INTERVAL))
                if sc['good']:
                    ctx.check(nr <= latest, 'skipped', 'cycle %d has buffer %d, the cycle before had %d and ended at %r buffers', k, nr, pNr, pEnd / INTERVAL)
                # A late cycle resumes at the next grid point to come: no bursting, no needless waiting
                ctx.check(nr >= readEarly, 'burst', 'cycle %d uses grid point %d, which was over when the cycle before ended (%r)', k, nr, pEnd / INTERVAL)
                ctx.check(nr <= latest, 'skipped', 'cycle %d uses grid point %d, but %d was the next one', k, nr, latest)
                del due
            prev = nr, ended
            ctx.state(round(began - tick, 5) > 0, cut > 0, res, min(nr - (round(ticks[k - 1][0] / INTERVAL) if k else nr), 5))
            ctx.log('tick', nr, round(began, 9))
        ctx.simTime += world.now - sc['start']
        ctx.nontrivial = len(ticks) > 1


PROP = P18()
