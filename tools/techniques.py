N = 'Random, hostile and fault-injected workloads against a reference model; not exhaustive. Counts of observed events are in the evidence file.'
TECH = {
'C01': ('op-history monitor of the real FragmentedFile against a flat byte-array model', N),
'C02': ('decoded run lists compared online with an independent encoder and reference decoder', N),
'C03': ('torn-write fault injection with an accept/refuse and byte-exactness oracle', N),
'C04': ('enumeration log of generated and damaged tables compared with the generator model', N),
'C05': ('path sets and lookups compared with the generated directory tree', N),
'C06': ('field-by-field comparison of decoded values with the generator record', N),
'C07': ('exactly-once/in-order checker over the log of yielded index entries', N),
'C08': ('conservation checker: planted slack names against recovered ones; slack bytes compared', N),
'C09': ('exactly-once/in-order checker over the log of journal records', N),
'C10': ('log-writer simulator with crash/damage injection; exactly-once/in-order checker over recovered records', N),
'C11': ('log-writer simulator with ground-truth attribution compared record by record', N),
'C12': ('copy-on-write simulator; every read compared with the recorded content at snapshot time', N),
'C13': ('reported partitions compared with generated and damaged tables', N),
'C14': ('walk log and content compared with the generated volume', N),
'C15': ('entry log compared with a reference directory decoder over generated directories', N),
'C16': ('walk log, content and allocation state compared with the generated volume', N),
'C17': ('checksum fault injection with an accept/refuse oracle', N),
'C18': ('access monitors on inputs, audit-hook trace of CLI runs, probing of the mounted file system operations', N),
'C19': ('mutation fuzzing under a logical step counter and an exception-type monitor', N),
'C20': ('decoded instants compared with exact integer arithmetic; order monitor', N),
'C21': ('rows emitted by the real command-line tools compared with the generated volume', N),
'C22': ('exactly-once/in-order checker over the log of tracking entries', N),
'C23': ('differential monitor of result logs at different volume offsets with an access-range monitor', N),
'C24': ('reassembled table bytes compared with generated volumes of all geometries; refusal oracle for boot sectors', N),
'C25': ('carved records compared with the structures planted in generated memory images', N),
'C27': ('differential monitor of query schedules (interleaved, abandoned, repeated, file position moved) against fresh parsers', N),
'C26': ('field-by-field monitor of decoded headers against the stored values, with a refusal oracle for invalid frames', N),
'C28': ('bounds monitor: reported ranges compared with the declared ones, with a refusal oracle for headers, run lists and chains that leave their bounds', N),
}
