import os
from time import perf_counter_ns
enabled: bool = os.environ.get('SONOLUS_OPT_PROFILE') == '1'
_stages: dict[str, list[int]] = {}

def enable():
    global enabled
    enabled = True

def reset():
    _stages.clear()

def now_ns():
    return perf_counter_ns()

def record(name, ns):
    entry = _stages.get(name)
    if entry is None:
        _stages[name] = [ns, 1]
    else:
        entry[0] += ns
        entry[1] += 1

def snapshot():
    return {name: {'total_ns': total, 'count': count} for name, (total, count) in _stages.items()}

def summary():
    stages = snapshot()
    total_ns = sum((entry['total_ns'] for entry in stages.values()))
    return {'stages': stages, 'total_ns': total_ns}

def format_text():
    stages = snapshot()
    if not stages:
        return 'opt profile: no stages recorded'
    ordered = sorted(stages.items(), key=lambda kv: kv[1]['total_ns'], reverse=True)
    total = sum((entry['total_ns'] for _, entry in ordered)) or 1
    lines = ['opt profile (per compile stage):', f'  {'stage':<16}{'total':>10}{'share':>8}{'calls':>9}']
    for name, entry in ordered:
        ms = entry['total_ns'] / 1000000
        share = 100 * entry['total_ns'] / total
        lines.append(f'  {name:<16}{ms:>8.1f}ms{share:>7.1f}%{entry['count']:>9}')
    return '\n'.join(lines)
