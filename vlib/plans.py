"""Which scenarios decide which property, and how their parameters are varied."""
import random

# scenario -> statistics that must be positive over all its runs together, otherwise the monitors observed nothing
MUST = {
    'calls': ['calls_completed', 'monitored_steps'],
    'burst': ['monitored_steps'], 'events': ['monitored_steps'], 'waits': ['monitored_steps'],
    'unsupported': ['unsupported_calls', 'supported_calls', 'dynamic_ok', 'dynamic_refused', 'ignored_events'],
    'hostile_server': ['monitored_steps'], 'hostile_client': ['monitored_steps'],
    'churn': ['connects_announced', 'disconnects_announced', 'stayer_calls'],
    'shutdown': ['monitored_steps'], 'dgram': ['monitored_steps', 'family_0', 'events_received', 'malformed_datagrams'], 'sizes': ['raw_messages_checked', 'nonblocking_sent', 'nonblocking_refused'], 'api': ['monitored_steps'],
    'arena': ['allocations', 'grown', 'releases', 'full_reclaims', 'threaded_operations'],
    'containers': ['monitored_steps'], 'reuse': ['handles_reused', 'responses_verified'], 'soak': ['operations', 'connections'], 'span': ['messages_spanned', 'held_calls', 'unsupported_calls'], 'exhaust': ['memory_exhausted', 'calls_completed', 'events_received'], 'flood': ['flood_requests', 'healthy_calls'], 'identity': ['datagram_calls', 'subscription_changes'],
    'links': ['calls_completed', 'one_way_messages', 'attacks', 'events_received', 'clients_moved', 'subscription_changes', 'announced', 'tcp_servers'],
    'faults': ['failed_memory', 'failed_descriptor', 'failed_poll', 'failed_thread', 'failed_send', 'failed_nosend', 'failed_address', 'single_failures', 'operations_refused', 'connections_lost', 'calls_not_sent', 'calls_completed', 'events_received', 'clients', 'messages_in_pieces'],
    'reentry': ['callback_actions', 'calls_awaited_in_callbacks', 'handler_events', 'handler_broadcasts', 'handler_registrations', 'events_received', 'welcomes', 'disconnect_callbacks'],
}
# scenarios whose stream link is sometimes a TCP one (the others count on what only local sockets guarantee, or are slow with delayed acknowledgements)
TCP = {'calls', 'burst', 'events', 'unsupported', 'waits', 'shutdown', 'exhaust', 'flood'}
W = [0, 1, 2, 2, 3, 4, 8]


def params(scen, r, big):
    """random parameters of one run; big scales the amount of work"""
    c = r.choice
    if scen == 'calls':
        pump = r.randint(0, 1)
        return dict(clients=c([1, 2, 3, 4]), threads=c([1, 2, 3, 4]), calls=c([60, 120]) * big, window=c([1, 4, 6, 12, 16]), defer=c([0, 30, 60, 100]),
                    pump=pump, workers=c(W), max=c([0, 0, 256, 1024, 8192]), responders=c([1, 2, 4]), noise=c([0, 1, 1]), self=c([0, 0, 1]))
    if scen == 'burst':
        return dict(workers=c(W), max=c([0, 0, 128, 512, 8192]), clients=c([1, 2, 3, 5]), n=c([150, 400]) * big, slow=c([0, 5, 10, 30]), leave=c([0, 1]), self=c([0, 0, 1]))
    if scen == 'events':
        return dict(workers=c(W), max=c([0, 0, 512, 8192]), clients=c([2, 3, 4, 6]), phases=c([8, 15]) * big, senders=c([1, 2, 3, 4]))
    if scen == 'waits':
        return dict(rounds=40 * big)
    if scen == 'unsupported':
        return dict(workers=c(W), rounds=60 * big, clients=c([1, 2, 3, 4]))
    if scen == 'hostile_server':
        return dict(workers=c(W), max=c([0, 0, 128, 512, 8192, 131072]), attacks=40 * big, healthy=c([1, 2, 3]), attackers=c([1, 3, 4]), self=c([0, 0, 1]))
    if scen == 'hostile_client':
        return dict(max=c([128, 512, 2048, 2048, 16384]), rounds=60 * big)
    if scen == 'churn':
        return dict(workers=c(W), n=30 * big, outstanding=c([0, 1, 1]), stayers=c([1, 2, 3]), churners=c([2, 4, 6]), self=c([0, 0, 1]))
    if scen == 'shutdown':
        return dict(rounds=20 * big)
    if scen == 'dgram':
        return dict(workers=c(W), max=c([0, 0, 512, 8192]), clients=c([1, 3, 4, 6]), calls=40 * big, window=c([1, 4, 8]), phases=c([6, 12]), attack=c([0, 1, 1]), self=c([0, 0, 1]), family=c([0, 0, 1, 2]))
    if scen == 'sizes':
        return dict(rounds=8 * big, big=c([0, 1]))
    if scen == 'api':
        return dict(rounds=80 * big, workers=c(W))
    if scen == 'arena':
        return dict(rounds=10 * big, ops=c([1500, 3000]))
    if scen == 'containers':
        return dict(rounds=10 * big, ops=c([2000, 4000]))
    if scen == 'reuse':
        return dict(rounds=3 * big, workers=c(W), between=c([0, 0, 0, 0, 65535]))
    if scen == 'flood':
        return dict(workers=c(W), calls=20 * big, batch=c([1, 10, 300, 2000]), flooders=c([1, 2, 3]), self=c([0, 0, 1]), dgram=c([0, 0, 1]), family=c([0, 2]), bad=c([0, 1]))
    if scen == 'span':
        return dict(workers=c([0, 2]), span=c([70000, 140000, 300000]), many=c([500, 2000, 4000]), held=c([2, 5, 16]))
    if scen == 'exhaust':
        return dict(workers=c(W), rounds=25 * big, self=c([0, 0, 1]))
    if scen == 'reentry':
        return dict(workers=c(W), rounds=c([15, 40]) * big, threads=c([1, 1, 2, 3]), p=c([5, 20, 50]), clients=c([1, 2, 3, 4]), churn=c([0, 10, 20]) * big, self=c([0, 0, 1]))
    if scen == 'links':
        return dict(workers=c(W), max=c([0, 0, 512, 8192]), links=c([2, 3, 4, 4]), mix=c([0, 0, 0, 1, 2]), phases=c([3, 5]) * big, clients=c([4, 6, 10]), calls=c([10, 30]), self=c([0, 0, 1]))
    if scen == 'faults':
        p = dict(workers=c(W), self=c([0, 0, 0, 1]), family=c([0, 0, 1, 2]), mode=c([0, 0, 1]))
        if p['mode'] == 0:   # every step'th acquisition fails in a round of its own
            step = c([7, 11, 13])
            p.update(mask=c([1, 1, 2, 4, 8, 16, 32, 64, 127]), burst=c([1, 1, 1, 5, 40]), step=step, **{'from': r.randrange(step)})
            p['rounds'] = 30 * big
        else:
            p.update(mask=c([1, 1, 2, 4, 8, 16, 32, 64, 127, 127, 127]), threads=c([1, 2, 4]), lives=c([2, 4]), rounds=4 * big)
        return p
    if scen == 'identity':
        return dict(workers=c(W), rounds=20 * big)
    if scen == 'soak':
        return dict(workers=c(W), max=c([96, 256, 256, 1024]), cycles=25 * big, ops=c([40, 60]), clients=c([1, 2, 3, 5]))
    raise KeyError(scen)


# (kind, scenario, quick runs)
PLAN = {
    'C02': [('asan', 'calls', 60), ('asan', 'reuse', 10), ('asan', 'waits', 12), ('asan', 'span', 1), ('asan', 'exhaust', 3), ('asan', 'reentry', 8), ('tsan', 'calls', 16)],
    'C03': [('asan', 'burst', 50), ('asan', 'calls', 12), ('asan', 'churn', 8), ('asan', 'links', 4), ('tsan', 'burst', 16)],
    'C04': [('asan', 'events', 60), ('asan', 'identity', 3), ('asan', 'dgram', 6), ('asan', 'reentry', 12), ('asan', 'links', 6), ('tsan', 'events', 16)],
    'C05': [('asan', 'waits', 40), ('asan', 'calls', 24), ('tsan', 'waits', 16), ('asan', 'hostile_client', 8), ('asan', 'reentry', 16)],
    'C06': [('asan', 'unsupported', 50), ('asan', 'identity', 3), ('tsan', 'unsupported', 12), ('asan', 'reuse', 8), ('asan', 'span', 1), ('asan', 'reentry', 6)],
    'C07': [('asan', 'hostile_server', 60), ('asan', 'flood', 10), ('tsan', 'hostile_server', 10)],
    'C08': [('asan', 'hostile_client', 60), ('asan', 'exhaust', 6), ('tsan', 'hostile_client', 8)],
    'C09': [('asan', 'churn', 50), ('tsan', 'churn', 12), ('asan', 'dgram', 10), ('asan', 'reuse', 6), ('asan', 'reentry', 10), ('asan', 'links', 6)],
    'C10': [('asan', 'arena', 60), ('tsan', 'arena', 8)],
    'C11': [('asan', 'containers', 60), ('tsan', 'containers', 8)],
    'C12': [('tsan', 'calls', 14), ('tsan', 'burst', 8), ('tsan', 'events', 10), ('tsan', 'waits', 10), ('tsan', 'churn', 10), ('tsan', 'shutdown', 6), ('tsan', 'soak', 6),
            ('tsan', 'dgram', 8), ('tsan', 'unsupported', 6), ('tsan', 'arena', 4), ('tsan', 'containers', 4), ('tsan', 'api', 4), ('tsan', 'sizes', 4), ('tsan', 'hostile_client', 3), ('tsan', 'reentry', 8), ('tsan', 'links', 4)],
    'C13': [('asan', 'shutdown', 50), ('asan', 'flood', 10), ('tsan', 'shutdown', 12), ('asan', 'churn', 6), ('asan', 'api', 6)],
    'C14': [('asan', 'dgram', 60), ('asan', 'flood', 3), ('asan', 'identity', 8), ('asan', 'links', 12), ('tsan', 'dgram', 12)],
    'C16': [('asan', 'soak', 36), ('asan', 'exhaust', 6), ('asan', 'churn', 8), ('asan', 'hostile_server', 6), ('asan', 'calls', 6), ('asan', 'burst', 4), ('asan', 'events', 4), ('asan', 'dgram', 4), ('asan', 'sizes', 4), ('asan', 'shutdown', 4)],
    'C17': [('asan', 'sizes', 40), ('asan', 'exhaust', 2), ('tsan', 'sizes', 8), ('asan', 'events', 6), ('asan', 'calls', 6)],
    'C19': [('asan', 'faults', 56), ('tsan', 'faults', 12)],
    'C18': [('asan', 'api', 50), ('tsan', 'api', 10), ('asan', 'shutdown', 6), ('asan', 'unsupported', 4), ('asan', 'links', 12)],
}
RACES = {'C12'}                      # data races are this property's business only
LEAKS = {'C01', 'C09', 'C10', 'C11', 'C13', 'C14', 'C16', 'C18', 'C19'}
FDLEAK = {'C09', 'C13', 'C16', 'C14', 'C18'}


# how often the plan is repeated, with other parameters, by the quick tier
QUICK = {'C19': 4, 'C05': 4, 'C10': 4, 'C11': 5, 'C12': 3, 'C14': 8, 'C17': 8, 'C18': 8, 'C08': 8}


def runs(prop, seed, tier):
    """endless for thorough, finite for quick"""
    plan = PLAN[prop]
    if tier == 'quick':
        todo = []
        for k, (kind, scen, n) in enumerate(plan):
            for i in range(n * QUICK.get(prop, 6)):
                todo.append((i / n, k, i, kind, scen))
        todo.sort()
        for _, k, i, kind, scen in todo:
            yield one(prop, seed, k, i, kind, scen, 1)
        return
    i = 0
    if prop == 'C11':
        j = one(prop, seed, 0, 0, 'asan', 'containers', 1)
        j[2]['wrap'] = 1
        yield j
    while True:
        r = random.Random('%s-%d-%d' % (prop, seed, i))
        weights = [n for _, _, n in plan]
        k = r.choices(range(len(plan)), weights)[0]
        kind, scen, _ = plan[k]
        yield one(prop, seed + 7777, k, i, kind, scen, r.choice([1, 2, 4]))
        i += 1


def one(prop, seed, k, i, kind, scen, big):
    r = random.Random('%s-%d-%d-%d-%s' % (prop, seed, k, i, scen))
    p = params(scen, r, big)
    p['seed'] = r.randint(1, 2**31 - 1)
    p['perturb'] = i % 4
    p['io'] = r.choice([0, 0, 1, 2, 3])
    p['spurious'] = r.choice([0, 0, 1])
    if scen in TCP:
        p['tcp'] = r.choice([0, 0, 0, 0, 0, 1, 2])
    return kind, scen, p
