p('N01', 'Decoding a generated document gives back the mappings that were added',
  'Parsing the mappings text of a generated document yields exactly the distinct mappings that were added.', [IN, HI], 'every list of valid mappings',
  'Round trips are tested on a few lists.', ['src/generator.rs', 'src/consumer.rs'], [('generation and parsing', 'generator.rs, consumer.rs')],
  na='The decoder is the external source-map-mappings crate, uninterpreted here; equality of a composed encode/decode over all lists is a runtime-value property. The encoder side is decided by A01, A02, C02 and C03.')
p('N02', 'Source URLs equal those of the WHATWG URL standard',
  'Resolving, joining and relativising source URLs gives the same strings as the URL standard\'s algorithms for every input.', [IN], 'every URL string',
  'Tests sample URL shapes.', ['src/util.rs'], [('url crate', 'util.rs')],
  na='The string result is computed by the external url crate; exact equality for all strings is not visible in the shape of this code. The structural clauses are decided by the F properties.')
p('N03', 'Lookups take logarithmic time',
  'A position lookup in a document of n mappings takes time logarithmic in n after the first query.', [IN], 'every document size',
  'Benchmarks sample sizes.', ['src/consumer.rs'], [('external index', 'source-map-mappings')],
  na='A timing property decided inside an external crate; no sound static argument on this code bounds it.')
