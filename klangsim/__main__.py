import os
import sys


def main(argv):
    from klangsim import runner
    if not argv:
        print('usage: check ID | replay FILE | build | show ID INDEX')
        return 2
    cmd, args = argv[0], argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    opts = {}
    rest = []
    it = iter(args)
    for a in it:
        if a.startswith('--'):
            opts[a[2:]] = next(it)
        else:
            rest.append(a)
    tier = opts.get('tier', tier)
    seed = opts.get('seed', seed)
    if cmd == 'check':
        return runner.check(rest[0], tier, seed,
                            nRuns=int(opts['runs']) if 'runs' in opts else None,
                            seconds=float(opts['seconds']) if 'seconds' in opts else None,
                            nWorkers=int(opts['workers']) if 'workers' in opts else None,
                            shrinkSeconds=float(opts['shrink']) if 'shrink' in opts else None,
                            evidence=opts.get('evidence', '1') == '1')
    if cmd == 'replay':
        return runner.replay(rest[0])
    if cmd == 'build':
        from klangsim import boot
        print(boot.build_extensions())
        boot.boot()
        return 0
    if cmd == 'show':
        import json
        prop = runner.load_property(rest[0])
        runner.boot.boot()
        print(json.dumps(runner.make_scenario(prop, seed, int(rest[1]), tier), indent=1))
        return 0
    if cmd == 'run':   # one seed, in process, with event log (for debugging)
        prop = runner.load_property(rest[0])
        runner.boot.boot()
        if hasattr(prop, 'setup'):
            prop.setup()
        out = runner.execute(prop, runner.make_scenario(prop, seed, int(rest[1]), tier), keepLog=True)
        for e in out.ctx.events:
            print(e)
        print(out.key, out.msg, out.harness, out.digest)
        return 0
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
