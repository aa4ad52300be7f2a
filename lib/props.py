"""Which parts decide which property."""
from run import traces
from mc import mc
import persist, conc, binknown, scanknown, authknown, ring

T = {}
T['C01'] = [mc('kv', 4, 6), traces([('Kv', 10, 2500, 60, 12000), ('Mix', 4, 2000, 16, 10000)])]
T['C02'] = [mc('cas', 6, 9), traces([('Cas', 12, 2500, 60, 12000)])]
T['C03'] = [mc('arith', 3, 4), traces([('Arith', 12, 2500, 60, 12000)])]
T['C04'] = [mc('time', 5, 7), traces([('Exp', 14, 2500, 60, 12000)])]
T['C05'] = [mc('flush', 5, 8), traces([('Flush', 16, 2500, 60, 12000)])]
T['C06'] = [mc('list', 5, 8), traces([('List', 14, 2500, 60, 10000), ('BigList', 3, 500, 12, 1500)])]
T['C07'] = [mc('set', 8, 12), traces([('Set', 14, 2500, 60, 10000), ('BigSet', 4, 700, 16, 2500)])]
T['C08'] = [mc('map', 6, 9), traces([('Map', 14, 2500, 60, 10000), ('BigMap', 4, 1000, 16, 3000)])]
T['C09'] = [mc('btree', 5, 7), traces([('Btree', 14, 2500, 80, 10000), ('BigTree', 4, 800, 16, 3000)])]
T['C10'] = [mc('trim', 4, 6), traces([('BtreeTrim', 16, 2500, 80, 10000)])]
T['C11'] = [mc('pos', 8, 10), traces([('BtreePos', 12, 2500, 80, 10000), ('BigTree', 4, 800, 24, 3000), ('DenseTree', 4, 1500, 40, 5000)])]
T['C12'] = [mc('multi', 4, 6), traces([('BtreeMulti', 16, 2000, 80, 8000)])]
T['C13'] = [mc('attr', 5, 8), traces([('Attr', 16, 2500, 60, 10000)])]
T['C14'] = [mc('type', 6, 9), traces([('Mix', 16, 2500, 60, 10000)])]
T['C15'] = [mc('pipe', 2, 3), traces([('Pipe', 14, 500, 60, 1500), ('PipeAsan', 2, 150, 12, 600)])]
T['C16'] = [traces([('Stream', 24, 250, 80, 600), ('StreamAsan', 6, 120, 20, 400)])]
T['C17'] = [binknown.known, traces([('Bin', 16, 500, 60, 2000), ('BinAsan', 4, 200, 8, 600)])]
T['C18'] = [conc.conc(6, 110, 40, 500)]
T['C19'] = [traces([('Full', 28, 250, 500, 500)], spec='Evict')]
T['C20'] = [traces([('Account', 18, 2500, 60, 12000)]), conc.conc(1, 90, 10, 300, ('acct',))]
T['C21'] = [traces([('Count', 14, 3000, 60, 12000), ('CountBin', 8, 500, 40, 1500)]), conc.conc(1, 90, 10, 300, ('stats',))]
T['C22'] = [scanknown.known, traces([('Scan', 16, 600, 60, 3000), ('ScanAsan', 2, 200, 8, 600)])]
T['C23'] = [persist.known, persist.sessions([('log', True, 6, 56, 500), ('log', False, 4, 16, 150)])]
T['C24'] = [persist.sessions([('ckpt', True, 4, 56, 500), ('ckpt', False, 3, 16, 150)])]
T['C27'] = [traces([('Tend', 24, 500, 120, 2500), ('TendAsan', 2, 250, 10, 800)])]
T['C25'] = [authknown.known, traces([('Login', 12, 700, 60, 3000), ('LoginBin', 6, 700, 30, 3000)], spec='Auth')]
T['C26'] = [ring.laws, ring.ring(24, 60, 200, 400)]
T['C28'] = [traces([('Watched', 24, 1500, 80, 6000), ('WatchedOver', 0, 0, 10, 500)], spec='Record')]
LEVEL = {}
TECH = {'C28': 'TLA+ specification of the command log and of the long-query detection (spec/Record.tla over spec/Arcus.tla) checked with TLC: recorded runs of the real server, its log files included, must be behaviours of it',
        'C26': 'TLA+ specification of the hash ring (spec/Ring.tla), its laws checked exhaustively by TLC on a small circle (spec/RingMC.tla); recorded runs of the real cluster_config.c must be behaviours of it',
        'C25': 'TLA+ specification of authentication on several connections (spec/Auth.tla over spec/Arcus.tla) checked with TLC: recorded runs of the real server with -S must be behaviours of it',
        'C19': 'TLA+ specification of eviction and refusal for lack of memory (spec/Evict.tla over spec/Arcus.tla) checked with TLC: recorded runs of the real server with full memory must be behaviours of it',
        'C18': 'TLA+ specification of linearizability (spec/Lin.tla over spec/Arcus.tla): TLC searches for an order of the overlapping commands of every recorded round that explains all replies',
        'C23': 'TLA+ specification of recovery (spec/Persist.tla over spec/Arcus.tla) checked with TLC against runs of the real server that is stopped at chosen system calls, its unsynced bytes torn off, and restarted',
        'C24': 'TLA+ specification of recovery (spec/Persist.tla over spec/Arcus.tla) checked with TLC against runs of the real server with checkpoints under load, failing file operations, crashes and orderly shutdowns',
        '*': 'TLA+ specification (spec/Arcus.tla) checked with TLC: recorded runs of the real server must be behaviours of it, reply for reply'}
NOTE = {'C18': 'schedules of the real threads are sampled (start gate, pauses at function calls and locks, slowly read replies); for each recorded round TLC searches all orders',
        '*': 'every recorded command and reply is checked by TLC against the specification; exploration of command histories is randomised, not exhaustive'}
NA = {}
