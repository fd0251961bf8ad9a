#!/usr/bin/env python3
"""Simulation of serpent/scripts/metrics_node.py: the script runs unmodified, its subscriber callbacks and its main loop as
simulated threads that a seeded scheduler may switch at every bytecode of the script, on a virtual clock.
Same command line and output as the C++ programs (sim/src/driver.cpp)."""
import bisect, hashlib, heapq, json, math, os, random, sys, threading as real_threading, types

os.environ['OPENBLAS_NUM_THREADS'] = os.environ['OMP_NUM_THREADS'] = '1'
REPO = os.environ.get('SIM_REPO', '/repo')
NODE = os.path.join(REPO, 'serpent/scripts/metrics_node.py')
DELAYS = [0, 0.0002, 0.001, 0.004, 0.012, 0.035, 0.11, 0.25, 0.6, 1.5]


class SimExit(BaseException):
    pass


# ---------------------------------------------------------------- scheduler
class Thread:
    def __init__(self, sim, name, fn):
        self.sim, self.name, self.fn = sim, name, fn
        self.sem = real_threading.Semaphore(0)
        self.state = 'ready'
        self.id = len(sim.threads)
        self.order = sim.tick()
        self.token = 0
        self.error = None
        sim.threads.append(self)
        self.os = real_threading.Thread(target=self.run, daemon=True)
        self.os.start()

    def run(self):
        self.sem.acquire()
        try:
            if not self.sim.dead:
                sys.settrace(self.sim.trace)
                self.fn()
        except SimExit:
            pass
        except BaseException as e:  # noqa: B902
            self.error = e
        finally:
            sys.settrace(None)
            self.state = 'done'
            self.sim.main_sem.release()


class Sim:
    def __init__(self, rng, explicit):
        self.rng, self.explicit = rng, explicit
        self.threads, self.cur, self.dead, self.now = [], None, False, 0.0
        self.main_sem = real_threading.Semaphore(0)
        self.events, self.counter, self.seq = [], 0, 0
        self.decisions, self.recorded, self.steps, self.switches = 0, [], 0, 0
        self.p_switch, self.p_stall, self.stall_until, self.max_stall = 0.05, 0.0, 0.0, 6
        self.hint = None
        self.sched = hashlib.sha1()
        self.shutdown = False
        self.faults = {}
        self.log = []

    def tick(self):
        self.counter += 1
        return self.counter

    def event(self, *a):
        self.seq += 1
        self.log.append((self.seq, self.now) + a)
        return self.seq

    def at(self, t, fn):
        heapq.heappush(self.events, (max(t, self.now), self.tick(), fn))

    def choose(self, n, p):
        if n <= 1:
            return 0
        if self.explicit is not None:
            c = min(self.explicit.get(self.decisions, 0), n - 1)
        else:
            c = 1 + self.rng.randrange(n - 1) if self.rng.random() < p else 0
        if c:
            self.recorded.append((self.decisions, c))
        self.decisions += 1
        return c

    def ready(self, first=None):
        r = sorted((t for t in self.threads if t.state == 'ready' and t is not first), key=lambda t: t.order)
        return ([first] if first else []) + r

    def switch_out(self):
        me = self.cur
        self.main_sem.release()
        me.sem.acquire()
        if self.dead:
            raise SimExit()

    def block(self, state):
        self.cur.state = state
        self.switch_out()

    def wake(self, t):
        t.state, t.order, t.token = 'ready', self.tick(), t.token + 1

    def sleep(self, d):
        me = self.cur
        me.token += 1
        tok = me.token
        self.at(self.now + max(0.0, d), lambda: self.wake(me) if me.state == 'sleep' and me.token == tok else None)
        self.block('sleep')

    def yield_point(self):
        if self.dead:
            raise SimExit()
        if not self.cur or real_threading.current_thread() is not self.cur.os:
            return
        self.steps += 1
        me = self.cur
        r = self.ready(me)
        i = self.choose(len(r), self.p_switch)
        if i:
            me.state, me.order, self.hint = 'ready', self.tick(), r[i]
            self.switch_out()
        if self.now < self.stall_until and (self.p_stall > 0 or self.explicit is not None):
            d = self.choose(self.max_stall, self.p_stall)
            if d:
                self.faults['stall'] = self.faults.get('stall', 0) + 1
                self.sleep(DELAYS[d])

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != NODE:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == 'opcode':
            self.yield_point()
        return self.local

    def run_until(self, t_end):
        while True:
            while self.events and self.events[0][0] <= self.now:
                heapq.heappop(self.events)[2]()
            t = self.hint if self.hint and self.hint.state == 'ready' else None
            self.hint = None
            if t is None:
                r = self.ready()
                if not r:
                    if not self.events or self.events[0][0] > t_end:
                        self.now = t_end
                        return
                    self.now = max(self.now, self.events[0][0])
                    continue
                t = r[self.choose(len(r), 0.5)]
            self.switches += 1
            self.sched.update(b'%d %d;' % (t.id, self.steps))
            t.state = 'running'
            self.cur = t
            t.sem.release()
            self.main_sem.acquire()
            self.cur = None

    def kill(self):
        self.dead = True
        for t in self.threads:
            if t.state != 'done':
                t.sem.release()
                t.os.join(5)


# ---------------------------------------------------------------- stand-ins for the modules the script imports
class Lock:
    def __init__(self, sim, recursive):
        self.sim, self.recursive, self.owner, self.depth = sim, recursive, None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = self.sim
        while self.owner is not None and not (self.recursive and self.owner is s.cur):
            if not blocking:
                return False
            s.cur.waiting = self
            s.block('lock')
        self.owner, self.depth = s.cur, self.depth + 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            for t in self.sim.threads:
                if t.state == 'lock' and t.waiting is self:
                    self.sim.wake(t)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Msg:
    def __init__(self, **k):
        self.__dict__.update(k)


def stand_ins(sim, published):
    rospy, threading = types.ModuleType('rospy'), types.ModuleType('threading')
    threading.Lock = lambda: Lock(sim, False)
    threading.RLock = lambda: Lock(sim, True)
    threading.current_thread = real_threading.current_thread

    class ROSException(Exception):
        pass

    class ROSInterruptException(ROSException, KeyboardInterrupt):
        pass
    subs, rate_calls = {}, [0]

    class Subscriber:
        def __init__(self, name, data_class, callback=None, callback_args=None, queue_size=None, **k):
            self.name, self.callback, self.args, self.limit, self.queue = name, callback, callback_args, queue_size, []
            self.thread = Thread(sim, 'cb' + name, self.loop)
            subs.setdefault(name, []).append(self)

        def deliver(self, index, m):
            if self.limit and len(self.queue) >= self.limit:
                self.queue.pop(0)
            self.queue.append((index, m))
            if self.thread.state == 'idle':
                sim.wake(self.thread)

        def loop(self):
            while not sim.shutdown:
                if not self.queue:
                    sim.block('idle')
                    continue
                index, m = self.queue.pop(0)
                sim.event('start', self.name, index, sim.cur.id)
                try:
                    if self.args is None:
                        self.callback(m)
                    else:
                        self.callback(m, self.args)
                except SimExit:
                    raise
                except Exception as e:
                    sim.event('callback_error', self.name, index, repr(e))
                sim.event('end', self.name, index, sim.cur.id)

    class Publisher:
        def __init__(self, name, data_class, queue_size=None, latch=False, **k):
            self.name = name

        def publish(self, *a, **k):
            if sim.shutdown:
                raise ROSException('publish() to a closed topic')
            m = a[0]
            published.append((sim.event('publish', self.name, sim.cur.id), sim.now, self.name, [(d.name, d.unit, d.value) for d in m.data]))
            sim.yield_point()

    def is_shutdown():
        return sim.shutdown

    def rsleep(d):
        d = d.to_sec() if hasattr(d, 'to_sec') else d
        sim.sleep(d)
        if sim.shutdown:
            raise ROSInterruptException('ROS shutdown request')
        sim.event('resume', sim.cur.id)

    class Rate:
        def __init__(self, hz, reset=False):
            self.d, self.last = 1.0 / hz, sim.now

        def sleep(self):
            rate_calls[0] += 1
            left = self.last + self.d - sim.now
            if left > 0:
                rsleep(left)
                self.last += self.d
            else:
                sim.event('resume', sim.cur.id)
                self.last = self.last + self.d if left > -self.d else sim.now

        def remaining(self):
            return max(0.0, self.last + self.d - sim.now)

    class Duration:
        def __init__(self, s=0, ns=0):
            self.s = s + ns * 1e-9

        def to_sec(self):
            return self.s

    class Timer:
        def __init__(self, period, callback, oneshot=False, **k):
            self.period, self.callback, self.oneshot, self.on = period.to_sec(), callback, oneshot, True
            Thread(sim, 'timer', self.loop)

        def shutdown(self):
            self.on = False

        def loop(self):
            while self.on and not sim.shutdown:
                sim.sleep(self.period)
                if sim.shutdown or not self.on:
                    return
                sim.event('resume', sim.cur.id)
                self.callback(types.SimpleNamespace(current_real=sim.now))
                if self.oneshot:
                    return

    def spin():
        while not sim.shutdown:
            sim.sleep(0.5)
    nothing = lambda *a, **k: None  # noqa: E731
    rospy.ROSException, rospy.ROSInterruptException = ROSException, ROSInterruptException
    rospy.Subscriber, rospy.Publisher, rospy.Rate, rospy.Duration, rospy.Timer = Subscriber, Publisher, Rate, Duration, Timer
    rospy.init_node = nothing
    rospy.is_shutdown, rospy.sleep, rospy.spin = is_shutdown, rsleep, spin
    rospy.get_time = lambda: sim.now
    rospy.get_param = lambda name, default=None: default
    for n in ('loginfo', 'logwarn', 'logerr', 'logdebug', 'logwarn_throttle', 'logwarn_once', 'loginfo_once', 'loginfo_throttle'):
        setattr(rospy, n, nothing)
    mods = {'rospy': rospy, 'threading': threading}

    def module(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)
        mods[name] = m

    class Names(type):
        def __getattr__(cls, k):
            if k.startswith('__'):
                raise AttributeError(k)
            return k

    class MetricDefines(metaclass=Names):
        pass

    class Dictionary:
        UNIT_NONE = 'none'

        def __init__(self, name='', unit='', value=0.0):
            self.name, self.unit, self.value = name, unit, value

    class DictionaryList:
        def __init__(self, data=None):
            self.data = [] if data is None else data
    for p in ('perception_msgs', 'infrastructure_msgs', 'geometry_msgs', 'nav_msgs'):
        module(p)
    module('perception_msgs.msg', MetricDefines=MetricDefines)
    module('infrastructure_msgs.msg', Dictionary=Dictionary, DictionaryList=DictionaryList)
    module('geometry_msgs.msg', PoseWithCovarianceStamped=Msg, PoseStamped=Msg, Pose=Msg)
    module('nav_msgs.msg', Path=Msg)
    return mods, subs


# ---------------------------------------------------------------- scenario
TOPICS = {'path': '/serpent/output/path', 'pose': '/serpent/output/pose', 'registration': '/serpent/registration/transform'}


def quat(r, angle, axis=None):
    a = axis or [r.gauss(0, 1) for _ in range(3)]
    n = math.sqrt(sum(x * x for x in a)) or 1.0
    s = math.sin(angle / 2) / n
    return [a[0] * s, a[1] * s, a[2] * s, math.cos(angle / 2)]


def qmul(p, q):
    x, y, z, w = p
    a, b, c, d = q
    return [w * a + x * d + y * c - z * b, w * b - x * c + y * d + z * a, w * c + x * b - y * a + z * d, w * d - x * a - y * b - z * c]


class Scenario:
    def __init__(self, seed, ov):
        r = self.r = random.Random(seed * 7919 + 5)
        self.n = ov.get('nscans') or r.randint(4, 24)
        self.period = r.choice([0.1, 0.25, 0.25, 0.5, 0.5, 1.0])
        sync = r.random() < 0.6  # inputs land on the publishing instants
        self.faults = []
        if r.random() < 0.5:
            self.faults.append(('jitter', None, r.uniform(0.0, 0.6)))
        for _ in range(r.randint(0, 3)):
            k = r.choice(['drop', 'drop', 'hold', 'gap', 'duplicate', 'late_start', 'shutdown'])
            self.faults.append((k, r.choice(list(TOPICS)), r.random()))
        off = ov.get('faults_off', set())
        on = [f for i, f in enumerate(self.faults) if i not in off]
        self.config = '%s%.2f' % ('sync/' if sync else '', self.period)
        self.inputs = []  # (arrival, topic, message)
        T = self.n * self.period + 1.0
        self.end, self.t_shutdown = T + 1.6, None
        pose_q, pose_p = quat(r, r.uniform(0, 3)), [r.uniform(-50, 50) for _ in range(3)]
        path = []
        big = r.random() < 0.3
        offs = {t: 0.0 if sync else r.uniform(0, self.period) for t in TOPICS}
        self.counts = {}
        t0 = r.choice([0.0, 0.0, 0.5, 0.7])
        for i in range(self.n):
            ang = r.uniform(0, 3.1) if big and r.random() < 0.5 else abs(r.gauss(0, 0.2))
            pose_q = qmul(pose_q, quat(r, ang))
            nn = math.sqrt(sum(x * x for x in pose_q))
            pose_q = [x / nn for x in pose_q]
            pose_p = [x + r.gauss(0, 1.0) for x in pose_p]
            sgn = -1.0 if r.random() < 0.25 else 1.0
            path = path + [self.pose(pose_p, [sgn * x for x in pose_q])]
            j = [self.pose([a + r.gauss(0, 0.01) for a in (p.position.x, p.position.y, p.position.z)], [p.orientation.x, p.orientation.y, p.orientation.z, p.orientation.w]) for p in path]
            path = j
            t = t0 + i * self.period
            cov = self.cov(r)
            self.inputs.append((t + offs['registration'], 'registration', Msg(header=None, pose=Msg(pose=self.pose([r.gauss(0, 1) for _ in range(3)], quat(r, ang)), covariance=cov))))
            if i >= 1:
                self.inputs.append((t + offs['path'], 'path', Msg(header=None, poses=[Msg(header=None, pose=p) for p in path])))
                q = path[-1].orientation
                s2 = -1.0 if r.random() < 0.25 else 1.0
                self.inputs.append((t + offs['pose'], 'pose', Msg(header=None, pose=Msg(pose=self.pose([path[-1].position.x, path[-1].position.y, path[-1].position.z], [s2 * q.x, s2 * q.y, s2 * q.z, s2 * q.w]), covariance=self.cov(r)))))
        for kind, topic, x in on:
            if kind == 'jitter' and not ov.get('no_jitter'):
                self.inputs = [(t + r.random() * x * self.period, k, m) for t, k, m in self.inputs]
            if kind == 'shutdown':
                self.t_shutdown = 0.4 + x * T
            if topic is None:
                continue
            a, b = x * T, x * T + (0.3 + 0.7 * x) * self.period * 4
            new = []
            for t, k, m in self.inputs:
                if k == topic:
                    if kind == 'drop' and random.Random(seed * 31 + int(t * 1e4)).random() < 0.3:
                        continue
                    if kind == 'gap' and a <= t < b:
                        continue
                    if kind == 'hold' and a <= t < b:
                        t = b
                    if kind == 'late_start' and t < b:
                        continue
                    new.append((t, k, m))
                    if kind == 'duplicate' and int(t * 1e3) % 3 == 0:
                        new.append((t, k, m))
                else:
                    new.append((t, k, m))
            self.inputs = new
        last = {}
        order = sorted(range(len(self.inputs)), key=lambda i: self.inputs[i][0])
        out = []
        for i in order:  # a connection keeps its order
            t, k, m = self.inputs[i]
            t = max(t, last.get(k, 0.0))
            last[k] = t
            out.append((t, k, m))
        self.inputs = out
        self.on = on

    @staticmethod
    def pose(p, q):
        return Msg(position=Msg(x=p[0], y=p[1], z=p[2]), orientation=Msg(x=q[0], y=q[1], z=q[2], w=q[3]))

    @staticmethod
    def cov(r):
        m = [[r.gauss(0, 1) for _ in range(6)] for _ in range(6)]
        return [sum(m[i][k] * m[j][k] for k in range(6)) * 10 ** r.uniform(-3, 1) if False else sum(m[i][k] * m[j][k] for k in range(6)) for i in range(6) for j in range(6)]


def rel(a, b):
    n = math.sqrt((a.position.x - b.position.x) ** 2 + (a.position.y - b.position.y) ** 2 + (a.position.z - b.position.z) ** 2)
    p, q = [a.orientation.x, a.orientation.y, a.orientation.z, a.orientation.w], [b.orientation.x, b.orientation.y, b.orientation.z, b.orientation.w]
    d = qmul([-p[0], -p[1], -p[2], p[3]], q)
    return n, 2 * math.atan2(math.sqrt(d[0] ** 2 + d[1] ** 2 + d[2] ** 2), abs(d[3]))


GROUPS = {
    'registration variances': ('registration', ['REGISTRATION_VAR_RX', 'REGISTRATION_VAR_RY', 'REGISTRATION_VAR_RZ', 'REGISTRATION_VAR_TX', 'REGISTRATION_VAR_TY', 'REGISTRATION_VAR_TZ']),
    'variance outlier': ('pose', ['VARIANCE_OUTLIER_MAX', 'VARIANCE_OUTLIER_IDX']),
    'consistent relative pose': ('path', ['CONSISTENT_RELATIVE_POSE_NORM', 'CONSISTENT_RELATIVE_POSE_ANGL']),
    'instant relative pose': ('pose', ['INSTANT_RELATIVE_POSE_NORM', 'INSTANT_RELATIVE_POSE_ANGL']),
}


def expected(group, msgs, v):
    """The values of a group of metrics when messages 0..v of its topic have been taken in (v == -1: none)."""
    if group == 'registration variances':
        if v < 0:
            return [-1.0] * 6
        c = msgs[v].pose.covariance  # geometry_msgs/PoseWithCovariance: x, y, z, rotation about x, y, z
        return [c[21], c[28], c[35], c[0], c[7], c[14]]
    if group == 'variance outlier':
        if v < 0:
            return [-1.0, -1.0]
        c = msgs[v].pose.covariance
        m = max(c)
        return [m, float(c.index(m))]
    if group == 'consistent relative pose':
        return list(rel(msgs[v].poses[-1].pose, msgs[v].poses[-2].pose)) if v >= 0 else [-1.0, -1.0]
    return list(rel(msgs[v].pose.pose, msgs[v - 1].pose.pose)) if v >= 1 else [-1.0, -1.0]


def close(a, b):
    return all(isinstance(x, (int, float)) or hasattr(x, '__float__') for x in a) and all(abs(float(x) - y) <= 2e-6 + 1e-9 * abs(y) for x, y in zip(a, b))


def run_one(profile, seed, ov, want_choices):
    s = Scenario(seed, ov)
    rng = random.Random(seed * 104729 + 3)
    sim = Sim(rng, ov.get('choices'))
    sim.p_switch = rng.choice([0.0, 0.01, 0.05, 0.2])
    sim.p_stall = rng.choice([0.0, 0.0005, 0.002, 0.01])
    sim.stall_until = s.end - 1.0
    for k, _, _ in s.on:
        sim.faults['fault_' + k] = sim.faults.get('fault_' + k, 0) + 1
    published, viol = [], {}
    mods, subs = stand_ins(sim, published)
    saved = {k: sys.modules.get(k) for k in mods}
    state = {}

    def bad(cls, msg):
        viol.setdefault(cls, msg)
    with open(NODE) as f:
        code = compile(f.read(), NODE, 'exec')
    arrived = {t: [] for t in TOPICS}

    def deliver(topic, m):
        live = subs.get(TOPICS[topic], [])
        if live and not sim.shutdown:
            i = len(arrived[topic])
            arrived[topic].append(m)
            for x in live:
                x.deliver(i, m)

    def main():
        sim.event('resume', sim.cur.id)
        exec(code, {'__name__': '__main__', '__file__': NODE})
    for t, k, m in s.inputs:
        sim.at(t, lambda k=k, m=m: deliver(k, m))
    sys.modules.update(mods)
    try:
        th = Thread(sim, 'main', main)
        sim.run_until(s.t_shutdown if s.t_shutdown is not None else s.end)
        state['alive'] = th.state != 'done'
        state['at'] = sim.now
        err = th.error
        if th.state != 'done':
            sim.shutdown = True
            for t in sim.threads:
                if t.state == 'idle':
                    sim.wake(t)
            sim.run_until(sim.now + 12.0)
            err = th.error
        blocked = [t.name + ':' + t.state for t in sim.threads if t.state != 'done']
    finally:
        sim.kill()
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    if not state['alive']:
        bad('the metrics node died', 'main loop ended at %.3f s: %r' % (state['at'], err))
    elif err is not None and type(err).__name__ not in ('ROSInterruptException', 'ROSException'):
        bad('the metrics node died', 'during shutdown: %r' % (err,))
    elif blocked:
        bad('the metrics node does not stop', ', '.join(blocked))
    for e in sim.log:
        if e[2] == 'callback_error':
            bad('exception in a callback', '%s message %d: %s' % e[3:6])
    # judge every published list
    starts = {t: [e[0] for e in sim.log if e[2] == 'start' and e[3] == TOPICS[t]] for t in TOPICS}
    ends = {t: [e[0] for e in sim.log if e[2] == 'end' and e[3] == TOPICS[t]] for t in TOPICS}
    judged = 0
    resumes = {}
    for e in sim.log:
        if e[2] == 'resume':
            resumes.setdefault(e[3], []).append(e[0])
    tid = {e[0]: e[4] for e in sim.log if e[2] == 'publish'}
    for seq, t, topic, data in published:
        if topic != '/serpent/metrics':
            continue
        names = [d[0] for d in data]
        want = [n for _, ns in GROUPS.values() for n in ns]
        if sorted(names) != sorted(want):
            bad('wrong set of metrics', 'at %.3f s: %s' % (t, ', '.join(names)))
            continue
        val = {d[0]: d[2] for d in data}
        rs = resumes.get(tid[seq], [])
        k = bisect.bisect_left(rs, seq)
        begin = rs[k - 1] if k else 0
        for g, (src, ns) in GROUPS.items():
            lo = bisect.bisect_left(ends[src], begin) - 1
            hi = bisect.bisect_left(starts[src], seq) - 1
            got = [val[n] for n in ns]
            judged += 1
            if not any(close(got, expected(g, arrived[src], v)) for v in range(lo, hi + 1)):
                bad('%s not those of one current message' % g, 'at %.3f s: %s; with %d..%d messages taken in: %s' % (
                    t, ['%.9g' % float(x) for x in got], lo + 1, hi + 1, [['%.9g' % x for x in expected(g, arrived[src], v)] for v in range(lo, hi + 1)][:3]))
    # two lists a second while nothing is delayed
    times = [t for _, t, topic, _ in published if topic == '/serpent/metrics']
    if state['alive']:
        t_to = state['at']
        if t_to > 0.1 and not times:
            bad('metrics not published', 'none up to %.3f s' % t_to)
        for a, b in zip(times, times[1:] + [t_to]):
            if a > s.end - 0.9 and b - a > 0.75:
                bad('metrics not published twice a second', 'nothing between %.3f and %.3f s' % (a, b))
        if 'stall' not in sim.faults and times and abs(len(times) - (t_to * 2 + 1)) > 1.5:
            bad('metrics not published twice a second', '%d lists in %.3f s' % (len(times), t_to))
    h = hashlib.sha1(repr([(e[0], '%.9f' % e[1]) + tuple(map(str, e[2:])) for e in sim.log]).encode())
    h.update(repr([(n, u, '%.12g' % float(v)) for _, _, _, d in published for n, u, v in d]).encode())
    out = {'seed': seed, 'profile': profile, 'nfaults': len(s.faults), 'nscans': s.n, 'config': s.config, 'hist': h.hexdigest()[:16], 'sched': sim.sched.hexdigest()[:16],
           'steps': sim.steps, 'switches': sim.switches, 'decisions': sim.decisions, 'nchoices': len(sim.recorded), 'simtime': round(sim.now, 6), 'faults': sim.faults,
           'cov': {'C21.judged': judged, 'C21.lists': len(times)}, 'viol': [{'p': 'C21', 'c': c, 'm': m} for c, m in sorted(viol.items())]}
    if want_choices:
        out['choices'] = ' '.join('%d:%d' % c for c in sim.recorded)
    print(json.dumps(out), flush=True)


def main(argv):
    import time
    profile, first, count, stride, seconds, choices, ov = 'c21', 1, 1, 1, 1e9, False, {}
    i = 0
    while i < len(argv):
        a = argv[i]
        nx = argv[i + 1] if i + 1 < len(argv) else ''
        i += 2
        if a == '--profile':
            profile = nx
        elif a in ('--seed', '--from'):
            first = int(nx)
        elif a == '--count':
            count = int(nx)
        elif a == '--stride':
            stride = int(nx)
        elif a == '--seconds':
            seconds = float(nx)
        elif a == '--choices':
            choices = True
            i -= 1
        elif a == '--replay':
            for line in open(nx):
                w = line.split()
                if w[:1] == ['profile']:
                    profile = w[1]
                elif w[:1] == ['seed']:
                    first = int(w[1])
                elif w[:1] == ['nscans']:
                    ov['nscans'] = int(w[1])
                elif w[:1] == ['no_jitter']:
                    ov['no_jitter'] = True
                elif w[:1] == ['fault_off']:
                    ov.setdefault('faults_off', set()).add(int(w[1]))
                elif w[:1] == ['explicit']:
                    ov.setdefault('choices', {})
                elif w[:1] == ['choice']:
                    ov.setdefault('choices', {})[int(w[1])] = int(w[2])
            count = 1
        else:
            i -= 1
    t0 = time.time()
    for k in range(count):
        if time.time() - t0 > seconds:
            break
        pid = os.fork()  # every run starts from the same interpreter state (specialised bytecode, type caches)
        if pid == 0:
            try:
                run_one(profile, first + k * stride, ov, choices)
            except Exception as e:
                print(json.dumps({'seed': first + k * stride, 'profile': profile, 'dead': repr(e)}), flush=True)
            os._exit(0)
        os.waitpid(pid, 0)


main(sys.argv[1:])
