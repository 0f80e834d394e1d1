#!/usr/bin/env python3
"""Writes known_findings.json.  (status fixed entries suppress nothing.)"""
import json, os
FIXED = [
 ("C01", "0a50951", "offset+length near 2^32/2^64 wrapped around in the buffer range checks: peek/set/get accessed memory out of bounds"),
 ("C04", "d7cd480", "shrinking a buffer that references foreign memory called realloc on it, and could grow the buffer"),
 ("C02", "51dd591", "a failed text append left the read position past the write position"),
 ("C04", "cef3eab", "formatted append wrote its terminator without reserving room for it"),
 ("C04", "6d68ef5", "moving into a buffer that refuses to grow consumed the source bytes"),
 ("C02", "ffbf3c6", "blob read ignored the error mark"),
 ("C04", "7d4da0d", "formatted append ignored the error mark"),
 ("C01", "9481a5d", "text append length overflowed int"),
 ("C07", "57e2c54", "replacing an empty pattern never terminated"),
 ("C10", "39edda3", "queue out-of-memory flag was never cleared by a later successful add"),
 ("C11", "9625e98", "heap add counted an element although growing the storage had failed"),
 ("C13", "4b4f86b", "a requested capacity above 2^31 wrapped around to zero"),
 ("C13", "b7a78d8", "initialisation left the oom and found flags unset"),
 ("C13", "17a06ab", "a put that ran out of memory left a stale found flag"),
 ("C14", "d26dfd1", "an '@' after the authority was taken for the end of the userinfo"),
 ("C14", "80c2144", "a ':' in the path was taken for the start of the port"),
 ("C14", "0b097bd", "port 65536 was accepted"),
 ("C14", "9abbd0e", "a '?' inside the fragment was taken for the start of the query"),
 ("C15", "02d8d77", "an overlong line of a file was split and its tail parsed as further lines"),
 ('C18', '1a15d7d', 'sc_cond_term returned a positive errno instead of a negative value'),
 ('C19', 'fb76d1a', 'a thread that failed to start was joined (undefined thread id)'),
 ('C19', '5fa1fca', 'thread start and join returned a positive error code instead of -1'),
 ('C19', '2102c7f', 'the thread error text was uninitialised before the first error'),
 ('C21', '0e17fd2', 'a timer with a huge timeout wrapped around and fired at once'),
 ('C23', '3ffbd00', 'sc_log_init returned a positive error code instead of a negative value'),
 ('C23', '391e4ad', 'sc_log_set_file did not set errno for a name that is too long'),
 ('C23', '4205212', 'log file rotation did not count the bytes of the line headers'),
 ('C24', '11a9436', 'sc_mmap_msync left the end of a range with an unaligned offset unsynced'),
 ('C26', 'a0ef661', 'socket timeouts lost their millisecond part'),
 ('C26', 'ab6001a', 'sc_sock_listen unlinked the given unix path but bound a truncated one when it was too long'),
 ('C26', '0832320', 'unix sockets ignored the non-blocking mode'),
 ('C25', 'a1c77f7', 'sc_sock_local_str/remote_str printed uninitialised memory for an unnamed unix socket'),
 ('C25', '43558b4', 'sc_sock_local_str/remote_str passed NULL for %s when inet_ntop failed'),
 ('C25', 'fc1315c', 'sc_sock_set_blocking did not set the error text'),
 ('C26', 'cfc3260', 'sc_sock_notify_systemd sent to a truncated path'),
 ('C28', '88f7a8f', 'sc_signal_vsnprintf wrote its terminator into a buffer of size zero'),
 ('C28', '6709590', 'sc_signal_vsnprintf negated INT_MIN / LLONG_MIN in the signed type'),
 ('C28', 'cc5e263', 'sc_signal_log wrote the buffer with a negative length after a failed format'),
 ('C30', '9b00dac', 'sc_size_to_bytes overflowed negating the smallest value'),
 ('C30', 'a5ed5cb', 'sc_size_to_bytes truncated the length of the unit tail to int'),
 ('C30', '99b21aa', 'sc_size_to_bytes passed negative characters to tolower'),
 ('C32', '8b18b75', 'sc_perf scaled a multiplexed counter down instead of up (value x running / enabled)'),
 ('C32', '43e665d', 'sc_perf_start while running discarded the time measured so far'),
 ('C02', '51c0262', 'a string read refused for its length consumed the length prefix'),
 ('C02', '9456d3e', 'sc_buf_get_str handed out a string that is not terminated inside the data'),
 ('C33', 'aa678f4', "sc_array_del and sc_array_del_unordered captured a caller's variable called idx"),
 ('C36', 'b00aa6b', 'sc_rand_init started from a copy of the seed, so byte values missing in the seed (a third of them) never came'),
 ('C33', '5547be5', 'sc_str_append_fmt took the wrong string for an argument such as strs + i'),
]
KNOWN = []
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [dict(property=p, status="fixed", commit=c, summary=s, line="fixed: property=%s %s %s" % (p, c, s)) for p, c, s in FIXED]
out += [dict(k, status="known") for k in KNOWN]
with open(os.path.join(V, "known_findings.json"), "w") as f:
    json.dump({"findings": out}, f, indent=1)
    f.write("\n")
