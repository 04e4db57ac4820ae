#!/usr/bin/env python3
"""The properties; prints properties.jsonl and MANIFEST.json from them.

  props.py          rewrite both files
"""
import json
import os

from targets import THREADS

HERE = os.path.dirname(os.path.abspath(__file__))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, state=state))


prop('C01', 'Every well-formed protocol line has exactly its documented effect',
     'Any history of well-formed lines (types c, d, t, g with an optional ttl, m, A, C, U, X with its millisecond timestamp, D and T; any name, '
     'tags and numeric value; several newline-separated lines per datagram) is accepted and makes every later report contain exactly the measurements '
     'those lines mean: right name, tags, statistic, unit and value, nothing missing, nothing extra, nothing twice. '
     'Characters outside the Atlas set become underscores, an existing statistic tag is kept where the documentation says so, and meters that were idle '
     'longer than their ttl (a gauge: its own ttl, at least 5 s) are no longer reported.',
     ['inputs', 'histories'], 'all datagrams of well-formed lines, interleaved with reporting intervals, elapsed time and expiry runs',
     'the tests parse a dozen fixed lines and look at single meters; names, tags, values, orders of lines, reports and expiry are unbounded',
     ['server/spectatord.cc', 'spectator/registry.cc', 'spectator/id.h', 'spectator/tags.h'],
     [('parse_line / parse_lines', 'server/spectatord.cc'), ('the per-type meters', 'spectator/*.cc'), ('measure() of every meter map', 'spectator/registry.h')],
     ['Registry::Measurements()'],
     'model-based property testing of line histories against a reference model of the protocol',
     'Random and coverage-guided histories of generated lines against an independent model; the clock is virtual.')

prop('C02', 'A bad line is reported and counted, and affects nothing else',
     'In any datagram, of the main protocol or of the statsd dialect, each line counts once: well-formed lines have exactly the effect they would have alone, whatever stands before or '
     'after them, and lines that the protocol forbids (unknown type, missing separator, name or value, bad ttl, timestamp, sampling rate or empty tag) have no effect on any meter. '
     'The parser reports an error exactly when some line is bad, and the parsed and parse-error status counters grow by exactly the number of good and bad lines, also after they were idle for longer than the meter ttl.',
     ['inputs', 'histories'], 'all mixtures of well-formed and forbidden lines in datagrams, and all histories of them with reports and idle time',
     'the tests feed single bad lines; which neighbours a bad line has, and what the counters say afterwards, is not looked at',
     ['server/spectatord.cc'],
     [('parse / parse_statsd split the datagram and collect errors', 'server/spectatord.cc'), ('parsedCount and parseErrors', 'server/spectatord.cc')],
     ['the result of parsing', 'Registry::Measurements()'],
     'model-based property testing of mixed datagrams against a reference model',
     'Bad lines come from families that are forbidden by construction; text whose validity the documentation leaves open is not judged.')

prop('C03', 'Every well-formed statsd line has exactly its documented effect',
     'Any history of well-formed statsd lines (c, g, h, ms and s; optional sampling rate in (0,1]; optional #tags with key:value pairs and markers) is accepted and makes every later report contain exactly what '
     'they mean: c adds value/rate, g sets the gauge, h and ms record the value (ms in milliseconds) round(1/rate) times, s is accepted without a meter, and a marker is a tag with the value 1.',
     ['inputs', 'histories'], 'all datagrams of well-formed statsd lines, interleaved with reports, elapsed time and expiry',
     'the tests parse a handful of fixed lines; rates, tags, values and their combinations are unbounded',
     ['server/spectatord.cc'],
     [('parse_statsd_line', 'server/spectatord.cc')],
     ['Registry::Measurements()'],
     'model-based property testing of statsd line histories against a reference model',
     'Sampling rates of h and ms are at least 1/2000, since the work per line grows with 1/rate.')

prop('C04', 'Arbitrary bytes cannot crash, hang or corrupt the parsers',
     'Whatever bytes a datagram of either protocol consists of, parsing it returns, touches no memory outside the datagram, has no undefined behaviour and counts each non-empty line exactly once as parsed or as an error. '
     'A datagram whose lines are all rejected creates no meter and changes no reported value, and every id that is ever reported has a name and consists of Atlas characters only.',
     ['inputs'], 'all byte strings as datagrams, in all sequences of up to four',
     'the tests feed a dozen hand-written lines',
     ['server/spectatord.cc', 'spectator/string_pool.cc'],
     [('bounds checks of the line parsers', 'server/spectatord.cc'), ('the character table of the string pool', 'spectator/string_pool.cc')],
     ['the process under AddressSanitizer and UBSan', 'Registry::Measurements()', 'Registry::Size()'],
     'coverage-guided structured fuzzing with AddressSanitizer, UBSan and invariants on the effect',
     'Coverage-guided search; no proof that unexplored byte strings are safe.')

prop('C06', 'An interval reports exactly what was recorded in it',
     'For counters, timers, distribution summaries and max gauges, each report carries exactly what was recorded since the previous report (sum; count, total, total of squares and maximum; largest value), timers in seconds, '
     'and nothing at all for an interval without records. Negative and NaN counter deltas and amounts are ignored without disturbing what was recorded, reading accessors never changes anything, and the time of the last update follows every update that counts.',
     ['inputs', 'histories'], 'all histories of updates with any amounts and of reports',
     'the tests record two or three fixed values and report once or twice',
     ['spectator/counter.cc', 'spectator/timer.cc', 'spectator/dist_summary.cc', 'spectator/max_gauge.cc', 'spectator/atomicnumber.h'],
     [('Measure() takes and resets', 'spectator/counter.cc, timer.cc, dist_summary.cc, max_gauge.cc')],
     ['Measure()', 'Count(), TotalAmount(), TotalTime(), Get(), Updated()'],
     'stateful property testing against a reference model',
     'Random histories; amounts keep integer totals below 2^63.')

prop('C07', 'A gauge reports its last value until its ttl has passed',
     'A gauge reports, in every interval, exactly the value set last, for as long as no more than its ttl has passed since then; after that nothing is reported and it reads as NaN until it is set again. '
     'The effective ttl is the one asked for last, but at least 5 seconds, and setting a NaN reports nothing.',
     ['inputs', 'histories'], 'all histories of sets, ttl changes, reports and elapsed time',
     'the tests set two values and look at one expiry',
     ['spectator/gauge.cc', 'spectator/gauge.h'],
     [('HasExpired and Measure', 'spectator/gauge.cc')],
     ['Measure(), Get(), GetTtl(), HasExpired()'],
     'stateful property testing against a reference model with a virtual clock',
     'Whether the first report after the ttl carries the value one last time is left open, as the registry filters expired gauges itself.')

prop('C08', 'Monotonic counters report each increase exactly once',
     'A monotonic counter (double or unsigned 64-bit) reports in each interval the increase of its value since the previous report if it is positive, and nothing otherwise; the first value is only a baseline, also when a report happened before it was set. '
     'Unsigned counters compute modulo 2^64, so that a wrap-around counts correctly, and report 0 for jumps beyond 2^63; without decreases the reports add up to the last measured minus the first measured value.',
     ['inputs', 'histories'], 'all histories of values (growing, restarting, wrapping, repeated, NaN) and reports',
     'the tests follow four or five fixed values',
     ['spectator/monotonic_counter.cc', 'spectator/monotonic_counter_uint.cc'],
     [('Measure() and Delta()', 'spectator/monotonic_counter.cc, monotonic_counter_uint.cc')],
     ['Measure(), Delta()'],
     'stateful property testing against a reference model plus a conservation law',
     'Random histories.')

prop('C09', 'Sampled monotonic sources report the rate between samples',
     'A sampled monotonic source reports per interval the increase per second between the last sample of an earlier interval and the latest sample, by the timestamps of the samples, if that rate is positive, and nothing otherwise. '
     'Samples that do not move the time forward are ignored, no sample counts twice, and a single sample never produces a rate.',
     ['inputs', 'histories'], 'all histories of (value, timestamp) samples, in and out of order, and reports',
     'the tests use two or three ordered samples',
     ['spectator/monotonic_sampled.cc', 'spectator/monotonic_sampled.h'],
     [('Set() and Measure()', 'spectator/monotonic_sampled.cc')],
     ['Measure(), SampledRate()'],
     'stateful property testing against a reference model',
     'Random histories.')

prop('C11', 'Interned strings are canonical, clean and permanent',
     'Interning any text gives a reference that reads back as the text with every character outside the Atlas set replaced by an underscore, for as long as the pool lives; two references are equal exactly when those cleaned texts are. '
     'The pool statistics count every call as a hit or a miss, and each distinct cleaned text once in table size, misses and bytes.',
     ['inputs', 'histories'], 'all sequences of byte strings without NUL, through every overload',
     'the tests intern four strings',
     ['spectator/string_pool.cc', 'spectator/string_pool.h', 'spectator/string_intern.h', 'tools/gen_valid_chars.cc'],
     [('Intern', 'spectator/string_pool.cc'), ('the generated character table', 'tools/gen_valid_chars.cc')],
     ['Intern(), intern_str(), Stats()'],
     'property testing against a map from raw to cleaned text',
     'Random sequences.')

prop('C12', 'Tag sets and ids behave as values',
     'A tag set always equals the map of the tags added to it (size, order by key, lookup, replacement of an existing key), however large it grows and however it was copied, moved, merged or assigned, without touching or leaking foreign memory. '
     'Equality and hashes of tag sets and ids follow their contents and not the order of construction, and deriving an id (extra tags, statistic, default statistic) gives exactly the documented tags and leaves the original unchanged.',
     ['histories'], 'all sequences of operations on several tag sets of up to 24 keys, crossing the inline capacity of 8',
     'the tests build small sets in one order and move each once',
     ['spectator/tags.h', 'spectator/id.h'],
     [('small buffer with 8 tags, heap above', 'spectator/tags.h'), ('cached hash', 'spectator/id.h')],
     ['iteration, at(), has(), size(), ==, hash()'],
     'stateful property testing of operation sequences against std::map, with AddressSanitizer and an allocation balance',
     'Random sequences; use of a moved-from set other than assignment is left out.')

prop('C13', 'Percentile buckets and percentile estimates follow their definition',
     'Every 64-bit value belongs to the bucket that the published bucket scheme assigns it (index, value, negative values in the first bucket), bucket indexes never decrease with the value, and all values a user can record have a bucket. '
     'Percentiles computed from bucket counts lie inside the bucket that reaches the percentile, interpolate linearly in it, never decrease with the percentile, and are numbers for every percentile from 0 to 100.',
     ['inputs'], 'all 64-bit values; all histograms over the 276 buckets and sorted lists of percentiles',
     'the tests use a few thousand values of a random walk and two histograms',
     ['spectator/percentile_buckets.cc', 'tools/gen_perc_bucket_values.cc', 'tools/gen_perc_bucket_tags.cc'],
     [('PercentileBucketIndexOf, Percentiles', 'spectator/percentile_buckets.cc'), ('the generated tables', 'tools/')],
     ['PercentileBucketIndexOf(), PercentileBucket(), Percentiles(), Percentile()'],
     'property testing against tables and percentiles computed from the definition',
     'Random values concentrated at bucket edges; histogram totals below 2^62.')

prop('C14', 'Percentile meters count each value in its bucket and in its totals',
     'For percentile timers and percentile distribution summaries with any range, each recorded value of at least zero counts exactly once in the counter of the bucket of the value clamped to the range (tags statistic=percentile and percentile=T or D plus the four-digit hexadecimal index) and exactly once, unclamped, in count, total, total of squares and maximum; negative values count nowhere. '
     'This stays so after the meters were idle and expired.',
     ['inputs', 'histories'], 'all ranges, values, and histories with reports, elapsed time and expiry',
     'the tests record a few fixed values in one range and never expire anything',
     ['spectator/percentile_timer.h', 'spectator/percentile_distribution_summary.h'],
     [('Record()', 'spectator/percentile_timer.h, percentile_distribution_summary.h')],
     ['Registry::Measurements()', 'Count(), TotalTime(), TotalAmount()'],
     'model-based property testing against a reference model',
     'Random histories.')

prop('C15', 'The payload encoding round-trips',
     'Whatever integers (below 2^31), doubles (any bit pattern) and ASCII strings are appended to a payload, in any number and order, gunzipping and SMILE-decoding the result gives back a well-formed array of exactly those values, also when the payload object is used again. '
     'The compressed buffer and the gzip functions give back exactly the bytes put in, for any sizes and chunk sizes, and report an error exactly when the room is too small or the input is truncated.',
     ['inputs', 'histories'], 'all sequences of appended values and bytes, all buffer sizes, all truncation points',
     'the tests encode one fixed payload and three strings',
     ['spectator/smile.cc', 'spectator/smile.h', 'spectator/compressed_buffer.cc', 'spectator/compressed_buffer.h', 'spectator/gzip.cc'],
     [('SmilePayload::Append', 'spectator/smile.cc'), ('CompressedBuffer::compress', 'spectator/compressed_buffer.cc')],
     ['Result() through an independent gunzip and SMILE decoder'],
     'round-trip property testing with an independent decoder',
     'Random sequences; output chunks of at least 2 bytes.')

prop('C20', 'One id and type name one meter, reported and expired on its own terms',
     'Looking up a type and an id (with tags in any order) always gives the same meter while it lives and never that of another type or id; every report and every callback carries exactly what was recorded since the last report by the meters that are not expired. '
     'Expiry removes exactly the meters that were idle for longer than their ttl, deletion exactly the gauges or age gauges named, a removed meter starts afresh when it is looked up again, and the size always equals the number of live meters.',
     ['histories'], 'all histories of lookups, records, reports, elapsed time, expiry and deletions over nine types of meters',
     'the tests look at one or two meters of a type and one expiry',
     ['spectator/registry.cc', 'spectator/registry.h'],
     [('meter_map insert / measure / remove_expired / remove_one / remove_all', 'spectator/registry.h')],
     ['Measurements(), OnMeasurements(), Size(), DeleteMeter()'],
     'model-based stateful property testing against a reference registry',
     'Random histories; concurrent histories are the matter of C10.')

prop('C21', 'Age gauges report their age forever, within the limit',
     'Each age gauge reports in every interval the seconds since its last success and never expires. '
     'There are never more age gauges than the limit: an update of a further id is accepted but reported nowhere, existing ones stay unaffected, and deleting one makes room for another.',
     ['histories', 'configurations'], 'all limits and histories of updates, elapsed time, expiry and deletions',
     'the tests fill one limit once',
     ['spectator/registry.cc', 'spectator/age_gauge.h'],
     [('Registry::GetAgeGauge', 'spectator/registry.cc'), ('AgeGauge::Value', 'spectator/age_gauge.h')],
     ['Measurements(), AgeGauges()'],
     'model-based stateful property testing with a virtual clock',
     'Random histories; limits from 0 to 5.')

prop('C25', 'A report stays valid whatever happens to its meters',
     'A list of measurements, once taken, keeps its names, tags and values and stays readable while its meters are updated, expire, are deleted singly or all together, and even when the registry goes away.',
     ['histories', 'schedules'], 'all histories that keep reports while meters change and disappear',
     'the tests look at measurements at once and never delete meters in between',
     ['spectator/measurement.h', 'spectator/registry.h'],
     [('measurements own their id', 'spectator/measurement.h')],
     ['the kept measurements, under AddressSanitizer'],
     'stateful property testing with AddressSanitizer and a snapshot comparison',
     'Random histories; up to four threads in the second stage.')

prop('C28', 'The percentile meter cache keeps what is used and drops what is idle',
     'Looking up an id in the cache of percentile meters gives the one object of that id, made only when there is none. '
     'An expiry run destroys exactly the objects that were not looked up for more than 120 seconds, each once, and tells how many there were and how many went.',
     ['histories'], 'all histories of lookups, elapsed time and expiry runs',
     'there is no test of the cache',
     ['server/expiring_cache.h'],
     [('get_or_create and expire', 'server/expiring_cache.h')],
     ['get_or_create(), expire()'],
     'model-based stateful property testing with a virtual clock',
     'Random histories of up to 60 ids.')

NOT_YET = {}

exec(open(os.path.join(HERE, 'props2.py')).read()) if os.path.exists(os.path.join(HERE, 'props2.py')) else None


def main():
    P.sort(key=lambda p: p['id'])
    for p in P:
        if p['id'] in THREADS:
            p['technique'] += '; second stage: the same objects used by several threads under generated schedules'
            p['over'] = list(dict.fromkeys(p['over'] + ['schedules']))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            o = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'],
                             'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                             'observe_at': p['observe'], 'hook_needed': None}}
            if p['state']:
                o['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(o) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 setup.py',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                     'thorough_cmd': 'python3 check.py ' + p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'],
                     'level': 'exploration', 'level_note': p['note']} for p in P if p['id'] not in NOT_YET],
         'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_YET.items())]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
