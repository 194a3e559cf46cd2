ASSUMPTIONS = [
    'single threaded execution on an asio::io_context (as cobalt requires); the order of its handlers is FIFO',
    'asynchronous operations outside cobalt are represented by environment operations, whose completion, failure and reaction to cancellation the explorer decides',
    'bounds are those named in coverage.bounds / the scenario names; nothing is claimed beyond them',
    'gcc 13 -std=c++20 with AddressSanitizer and UndefinedBehaviorSanitizer, Boost 1.83',
]

def unit(source, **kw):
    return dict(source=source, **kw)

CHECKS = {}

def check(pid, *units, bounds='', **kw):
    CHECKS[pid] = dict(units=list(units), bounds=bounds, **kw)

check('C01', unit('channel.cpp'), bounds='limits 0..2 (3), <=6 (7) operations by self-continuing actors, <=8 (9) explicit events')
check('C02', unit('channel.cpp'), bounds='limits 0..2 (3), <=5 (6) operations, <=8 (9) events, <=2 (3) cancellations')
check('C03', unit('channel.cpp'), bounds='limits 0..2 (3), <=5 (6) operations, <=7 (9) events, <=1 cancellations, <=2 closes')
check('P01', unit('promise.cpp'))
check('P02', unit('promise.cpp'))
check('T01', unit('task.cpp'))
check('T02', unit('task.cpp'))
check('T03', unit('task.cpp'))
check('G01', unit('generator.cpp'))
check('G02', unit('generator.cpp'))
check('R01', unit('race.cpp'))
check('R02', unit('race.cpp'))
check('R03', unit('held.cpp'), bounds='2 (3) awaits of 22 kinds, 3 (4) of 7 kinds, over two promises, two generators, an operation and a task, one failure; races of three promises or generators in every order, any of them ready')
check('J01', unit('join.cpp'))
check('A01', unit('join.cpp'))
check('C04', unit('chrace.cpp'))
check('W02', unit('with.cpp'))
check('W01', unit('group.cpp'))
check('O01', unit('op.cpp'))
check('X01', unit('cancel.cpp'))
check('X02', unit('forward.cpp'), bounds='2 (3) awaits of 23 kinds, <=2 cancellations')
check('S01', unit('main.cpp', flags=['-Dmain=cobalt_main']))
check('H01', unit('thread.cpp', sched=True), unit('thread.cpp', sched=True, san='thread'))
check('H02', unit('thread.cpp', sched=True), unit('thread.cpp', sched=True, san='thread'))
check('M01', unit('memory.cpp'), bounds='sequences of 3 (4) operations, sizes 0..beyond the buffer, alignments 1..64')
check('K01', unit('composition.cpp'), bounds='2 (3) awaits per operation, <=2 cancellations')
check('I01', unit('io.cpp', sources=['io/read', 'io/write']), bounds='buffers of up to 3 parts and 2 (3) bytes, every partial transfer, one cancellation')
check('B01', unit('buffer.cpp'), bounds='<=4 buffers of <=2 (3) bytes, <=3 (4) operations')

check('I02', unit('file.cpp', sources=['io/file', 'io/stream_file', 'io/random_access_file']), bounds='sequences of 3 (4) operations on one file, 2 (3) on two handles, one fault')
check('I03', unit('timer.cpp', sources=['io/steady_timer', 'io/system_timer', 'io/sleep']), bounds='5 (6) events on two timers with 2 or 3 waits, virtual clock')
check('I04', unit('stream.cpp', flags=['-fno-sanitize=vptr'], sources=['io/pipe', 'io/socket', 'io/stream_socket', 'io/datagram_socket', 'io/seq_packet_socket', 'io/endpoint']), bounds='4 or 5 (5 or 6) events, 3 or 4 operations, messages of 1 or 2 bytes (and blocking writes)')
check('I06', unit('serial.cpp', flags=['-fno-sanitize=vptr'], sources=['io/serial_port']), bounds='3 (4) events with options, 5 (6) without, up to one failing system call')
check('N01', unit('endpoint.cpp', sources=['io/endpoint']), bounds='all local paths up to 119 characters, every octet of v4 addresses, all v6 addresses of groups 0, 1 and 0xfedc (the last 4 of two (three) values), all strings up to 5 (7) characters of 0 1 2 . : a f %')
check('N02', unit('net.cpp', flags=['-fno-sanitize=vptr'], sources=['io/socket', 'io/stream_socket', 'io/datagram_socket', 'io/seq_packet_socket', 'io/endpoint']), bounds='4 or 5 (5 or 6) events, 2 or 3 connects to up to 2 (3) endpoints; all pairs (triples) of options')
check('I05', unit('signal.cpp', sources=['io/signal_set']), bounds='5 (6) events on two sets and two signals, up to 3 waits; one failure of the system in 4 (5) events')
check('N03', unit('resolver.cpp', sources=['io/resolver', 'io/endpoint']), bounds='4 (5) events, up to 3 queries with 7 results each')
check('U01', unit('args.cpp'), bounds='one coroutine of each type, 11 signatures, 2 contexts, 4 memory resources')
check('N04', unit('ssl.cpp', flags=['-fno-sanitize=vptr'], ldflags=['-lssl', '-lcrypto'], sources=['io/ssl', 'io/socket', 'io/stream_socket', 'io/endpoint']), bounds='every order of the steps of a handshake with one disturbance; 4 (5) events on a connected stream')
check('E01', *[unit('await.cpp', flags=['-O0', '-DPART=%d' % i]) for i in range(5)],
      *[unit('await.cpp', san=False, flags=['-O0', '-DSTACKFUL', '-DPART=%d' % i], ldflags=['-lboost_context']) for i in range(3)],
      bounds='one (two) awaits of one awaitable, 15 shapes of awaitables, 16 ways to await')
check('F01', unit('loop.cpp'), bounds='sources of up to 3 (4) values, two loops over each')
check('L01', unit('loop.cpp'), bounds='5 (6) operations on two handles and two coroutines')
