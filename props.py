# generates properties.jsonl (kept as source so that titles and statements stay in one place)
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=None)))
I='index/s2idx.go';PI='index/s2pointidx.go';TI='index/s2timeidx.go';T='index/tools.go'
p('C01','Flat index cell query returns exactly the ids indexed for that cell',
 'Asking a flat index for a cell of its own level returns the id of every entry the store holds for exactly that cell under the index prefix, each once and in key order, and no id of any other cell, prefix or record. A cell of any other level is refused with an error instead of being answered.',
 ['inputs','histories'],'every store content whose index entries are well formed (key longer than prefix+cell), every prefix, level, cell and id bytes',
 'Tests query three or four cells with one prefix and text ids; adjacent cells, ids that look like cells or prefixes, 0x00/0xff bytes and foreign records need every store content.',
 [I,T,'store/kvstore.go'],[('key layout prefix + big-endian cell + id',I+' GeoIndex'),('prefix scan and key decoding',I+' GeoIdsAtCell, keyToValues'),('level check',I+' GeoIdsAtCell')])
p('C02','Point index cell query returns exactly the points inside the cell',
 'Asking a point index for a valid cell of any level returns the id of every entry whose leaf cell lies inside that cell, both its first and its last leaf included, each entry once and in key order, and nothing else.',
 ['inputs','histories'],'every valid cell of levels 0 to 30, every store content with well formed entries, every prefix',
 'The test indexes 2 points and queries two ancestors; the ends of the leaf range, level-30 cells and neighbours one leaf away are never reached.',
 [PI,T],[('leaf range of the cell as key range',PI+' GeoIdsAtCell'),('key decoding',PI+' keyToValues')])
p('C03','Point radius and rectangle queries return exactly the points in the region',
 'A radius query returns exactly the entries whose leaf cell centre lies in the spherical cap around the given centre whose angular radius corresponds to the given metres, and a rectangle query exactly those whose leaf cell centre lies in the latitude/longitude rectangle spanned by the two corners. Each entry is returned once; none is missed or added because of how the region is split into cells.',
 ['inputs','histories'],'every centre, radius, rectangle and store content with well formed entries; the cover is any sorted disjoint cell set containing the region',
 'Tests use one radius around one point; whether filtering and cell splitting lose or duplicate points depends on every cover shape and every stored point.',
 [PI,T],[('scan of each cover cell then in-place filter',PI+' GeoIdsRadiusQuery, GeoIdsRectQuery'),('metres to cap area',T+' s2RadialAreaMeters')])
p('C04','Time index cell query returns exactly the ids inside the time window',
 'For a cell of the index level, the query with bounds from (the later time) and to (the earlier time) returns the id of every entry of exactly that cell whose time t satisfies to < t <= from, newest first, each entry once, and nothing else, for all times representable as 64-bit nanoseconds including before 1970. A cell of any other level is refused with an error.',
 ['inputs','histories'],'every pair of bounds and entry times in the int64 nanosecond range, every cell, prefix, id and store content with well formed entries',
 'The test stores one entry and queries one window; equality at the bounds, negative times, and neighbouring cells need every value.',
 [TI,T],[('reverse timestamp key layout',TI+' timePrefixKey, valuesToKey'),('range scan',TI+' GeoTimeIdsAtCell'),('level check',TI+' GeoTimeIdsAtCell')])
p('C05','Multi-cell, radius and rectangle queries are the duplicate-free union',
 'A query over a list of cells returns exactly the set union of the single-cell answers, each id once, and fails when any single-cell query fails. Radius and rectangle queries on the flat and time indexes return that union over the cover of the cap or rectangle at the index level.',
 ['inputs','histories'],'every list of cells (repeated, unordered, empty), every store content, every time window',
 'Tests use covers of one object where every id is the same; overlaps of distinct ids across cells and errors in the middle of the list are not sampled.',
 [I,PI,TI],[('map based de-duplication',I+' GeoIdsAtCells; '+PI+' GeoIdsAtCells; '+TI+' GeoTimeIdsAtCells'),('covers at index level',I+' GeoIdsRadiusQuery; '+TI+' GeoTimeIdsRadiusQuery, GeoTimeIdsRectQuery')])
p('C06','Indexing writes exactly the object\'s entries, all or none, and is retrievable',
 'A successful index call adds exactly one entry per cell of the object\'s cover (for a point index: its leaf cell) under the index prefix with the given id (and time), and changes no other record of the store, so the id is returned by queries on each of those cells. When it returns an error the store is unchanged; an empty id and an object without cover are refused.',
 ['inputs','histories'],'every geometry, id, time, prefix and prior store content; failures of cover, writer and batch execution',
 'Tests index two objects into an empty store and look for them again; untouched records, failure paths and odd ids need all inputs and histories.',
 [I,PI,TI],[('one batch with one Set per cover cell',I+' GeoIndex; '+TI+' GeoTimeIndex'),('point key',PI+' PointKey, PointIndex, GeoPointKey, GeoPointIndex')])
p('C07','Returned ids and keys belong to the caller, inputs are never modified',
 'Ids and keys returned by index calls keep their bytes whatever the store, its iterators or later calls do, and modifying them changes neither the store nor the index. Index calls never modify or retain the id, prefix, cell list or object they are given.',
 ['inputs','histories'],'every query result and every later store operation, including stores whose iterators reuse their key buffer and prefixes with spare capacity',
 'Aliasing shows only when the buffer is reused or remapped later, which depends on backend, order and allocation; the tests read results at once.',
 [I,PI,TI],[('copies of iterator keys',I+' keyToValues; '+PI+' keyToValues; '+TI+' keyToValues'),('fresh key buffers',I+' GeoIndex; '+TI+' timePrefixKey')])
p('C08','Index calls release every reader and iterator and report store failures',
 'Every index query closes each iterator and then each reader it opened exactly once, on success and on every error path. When the store cannot give a reader or a writer, or executing the batch fails, the call returns that error and does not panic or report success.',
 ['inputs','fault_sequences'],'every path through the query and index functions, with any of the store calls failing and with malformed stored keys',
 'Tests never make the store fail and never count open readers; a leak only shows later as a blocked writer or unbounded growth.',
 [I,PI,TI],[('deferred Close calls and error checks',I+' GeoIdsAtCell; '+PI+' GeoIdsAtCell, GeoIdsRadiusQuery, GeoIdsRectQuery; '+TI+' GeoTimeIdsAtCell')])
B=['store/badger/writer.go','store/boltdb/writer.go','store/goleveldb/writer.go','store/gtreap/writer.go']
p('C09','Batch execution is all or nothing and leaves the store usable',
 'When executing a batch returns an error, for example because a merge fails or a key is rejected, the store content is exactly what it was before; when it returns success every operation of the batch has been applied and committed. In both cases locks and transactions are released, so later reads and writes work.',
 ['inputs','fault_sequences'],'every batch, every position of a failing operation, every engine error, for badger, boltdb, goleveldb and gtreap',
 'The tests never execute a failing batch; the failing operation can be anywhere and maps are iterated in random order.',
 B,[('transaction with commit or rollback',B[0]+' ExecuteBatch; '+B[1]+' ExecuteBatch'),('single engine batch write',B[2]+' ExecuteBatch'),('copy on write root swap',B[3]+' ExecuteBatch')])
p('C10','A batch has the effect of its sets and deletes in order',
 'After a successful execution each key holds the value of the last set of it in the batch (an empty or nil value is a present empty value), is absent if its last operation is a delete, and every key the batch does not name is unchanged. A batch of a foreign type is refused and changes nothing.',
 ['inputs','histories'],'every sequence of sets and deletes with any byte keys and values the engine accepts, on every prior content, for all four backends',
 'Tests use seven fixed keys; repeated keys, delete after set and set after delete, empty values and untouched neighbours need all sequences.',
 B+['store/batch.go','store/goleveldb/batch.go'],[('ordered operation list','store/batch.go Set, Delete'),('replay of operations',' ExecuteBatch of each backend')])
p('C11','A reader is a stable snapshot with exact point reads',
 'A reader sees exactly the store content at the moment it was opened, whatever is written afterwards. Get returns the stored bytes as a copy owned by the caller (never nil for a present key) and nil without error for an absent key, MultiGet returns one result per key in order, and a real engine error is returned, not disguised as an absent key.',
 ['inputs','histories','fault_sequences'],'every content, key list and interleaving of later writes, for all four backends, and engine errors such as use after close',
 'Isolation is tested with one writer and five keys; MultiGet was never called with a key, and error paths are never taken.',
 ['store/multiget.go','store/badger/reader.go','store/boltdb/reader.go','store/goleveldb/reader.go','store/gtreap/reader.go','store/goleveldb/store.go','store/gtreap/store.go','store/boltdb/store.go','store/badger/store.go'],
 [('read transaction, snapshot or immutable tree','Store.Reader of each backend'),('value copies','Reader.Get of each backend'),('batch read','store/multiget.go MultiGet')])
IT=['store/badger/prefix_iterator.go','store/boltdb/iterator.go','store/goleveldb/iterator.go','store/gtreap/iterator.go','store/badger/reader.go','store/boltdb/reader.go','store/goleveldb/reader.go','store/gtreap/reader.go']
p('C12','A prefix iterator visits exactly the keys with the prefix, in order',
 'A new prefix iterator stands on the smallest key of the reader\'s snapshot that starts with the prefix, each Next moves to the next larger such key, and it becomes invalid after the last one. Seek moves to the smallest key with the prefix that is not below the target, a target before the prefix meaning the first; While it is valid, Key, Value and Current report exactly the entry stood on, and once it is not, Valid and Current say so.',
 ['inputs','histories'],'every content, prefix (including empty and 0xff bytes) and every sequence of Seek and valid Next calls, for all four backends',
 'Tests use about ten keys of letters; 0xff prefixes, keys equal to the prefix, and arbitrary seek sequences need all inputs.',
 IT,[('prefix bound checks',' Iterator.Seek/Valid/Current of each backend')])
p('C13','A range iterator visits exactly the keys in [start, end), in order',
 'A new range iterator stands on the smallest key k of the reader\'s snapshot with start <= k < end (no upper bound when end is nil), each Next moves to the next larger such key, and it becomes invalid after the last one. Seek moves to the smallest key of the range that is not below the target, a target before start meaning the first; While it is valid, Key, Value and Current report exactly the entry stood on, and once it is not, Valid and Current say so.',
 ['inputs','histories'],'every content, start, end and every sequence of Seek and valid Next calls, for all four backends',
 'Tests use about ten keys of letters; bounds equal to keys, bounds between keys, and arbitrary seek sequences need all inputs.',
 ['store/badger/range_iterator.go']+IT[1:],[('range bound checks',' Iterator.Seek/Valid/Current of each backend')])
p('C14','Batches copy their arguments and Reset empties them completely',
 'The key and value slices passed to Set, Delete and Merge can be overwritten as soon as the call returns without changing what the batch does. After Reset a batch behaves exactly like a new one: nothing queued before, set, delete or merge, is executed.',
 ['inputs','histories'],'every sequence of batch calls, caller buffer reuse and resets, for the emulated batch and the goleveldb batch',
 'The test reuses buffers for Set and Delete only and never reuses a batch after Reset.',
 ['store/batch.go','store/goleveldb/batch.go'],[('copies of key and value','store/batch.go Set, Delete, Merge; store/goleveldb/batch.go Merge'),('reset of operations and merges','Reset of both batches')])
p('C15','Merges combine all operands in order onto the existing value',
 'Executing a batch with merges replaces the value of each merged key, and of no other key, with the result of the merge operator applied to the key, the existing value (nil exactly when the key is absent) and the operands in the order they were added, where neighbouring operands may have been combined first by a successful partial merge. A partial merge that fails loses no operand.',
 ['inputs','histories'],'every merge operator, every sequence of merges on any keys, every prior content, for all four backends',
 'Tests merge counters with an operator whose partial merge always succeeds and is commutative; order, failing partial merges and several keys are not sampled.',
 ['store/merge.go','store/batch.go']+B,[('operand lists per key','store/merge.go Merge'),('full merge at execution','ExecuteBatch of each backend')])
G='index/geodata/tools.go';L='index/geodata/loop.go'
p('C16','Covers are valid, complete unions at the requested levels',
 'For every object with finite coordinates, its cover is the concatenation of the covers of its parts: the ancestor of the point\'s leaf cell at the minimum level, or the coverer\'s covering of the line or of each polygon, whichever way round the polygon is listed and whether or not its ring is closed. Every cell is valid and never coarser than the minimum level; malformed objects (missing geometry or coordinates, odd count, too few vertices, unknown type) give an error, never a panic; the object is not modified.',
 ['inputs'],'every geometry type, vertex list (convex or concave, either orientation, any start vertex), coverer levels and interior flag',
 'Tests cover five fixed shapes; concave and reversed rings, malformed inputs and sibling merging below the minimum level need all inputs.',
 [G,L],[('dispatch on type and length checks',G+' geoDataCoverCellUnion'),('loop construction and orientation',G+' coverPolygon; '+L+' LoopFromCoordinatesAndCCW')])
p('C17','Geometry conversion keeps type and positions and round-trips',
 'Converting a point, line or polygon keeps its type and its longitude/latitude pairs in order (outer ring only for polygons, extra dimensions dropped), refuses every other type and leaves the target\'s geometry untouched then. Converting the result back gives a geometry with the same type and the same positions.',
 ['inputs'],'every geometry with any number of coordinates, any layout and any number of rings',
 'Tests convert one two-dimensional polygon and one line.',
 [G],[('type switch and coordinate copy',G+' GeomToGeoData, GeoDataToGeom, GeoJSONFeatureToGeoData')])
p('C18','Property conversion keeps every scalar and rejects everything else',
 'Converting feature properties keeps every boolean, number and string under its own name with the same value, skips nulls, and fails on any other value without changing the target\'s properties; properties already on the target under other names are kept. Converting back yields the same names and values.',
 ['inputs'],'every property map, of any size and any mix of types, and every prior target',
 'Tests convert one map; map iteration order and mixed types with an error in the middle are random.',
 [G],[('type switches',G+' PropertiesToGeoData, PropertiesToJSONMap')])
p('C19','Cell union and difference are exact set operations',
 'The union of cell lists contains every cell that occurs in any of them exactly once, in ascending id order, and no other cell. The difference returns the cells of the first list left after removing, for each cell, as many of its first occurrences as it has in the second list, in their original order; neither function modifies its inputs.',
 ['inputs'],'every list of cell ids with any repetitions, any number of lists',
 'Tests use two small lists without repetitions.',
 ['s2tools/cellunion.go'],[('map based union and sort','s2tools/cellunion.go CellUnionUnion'),('counting difference','s2tools/cellunion.go CellUnionMissing')])
p('C20','Parsing a cell id accepts the three notations exactly',
 'A face/path text (a face digit 0 to 5, a slash, then at most 30 digits 0 to 3) gives the valid cell reached by that path and any other text containing a slash gives nothing. A text without a slash gives the cell of the token when the token denotes a non-zero id, otherwise the decimal 64-bit id, and nothing when it is neither; no text makes it panic.',
 ['inputs'],'every string',
 'Tests parse three strings.',
 ['s2tools/parse.go'],[('three notations tried in order','s2tools/parse.go ParseCellID')])
p('C21','HTTP handlers answer each request once and reject malformed ones',
 'The cell handler answers a comma separated list of valid tokens with the GeoJSON of exactly those cells in order, and the GeoJSON handler answers a collection of exactly one supported feature and three non-negative integers with the GeoJSON of the cover for exactly those parameters. Anything else gets a status 400 and no cell output, and no request makes a handler panic.',
 ['inputs'],'every query string, route variable values and request body',
 'Tests send one valid body; malformed, empty, null and multi-feature bodies and parameter mix-ups need all inputs.',
 ['s2tools/handlers.go'],[('parameter and body checks','s2tools/handlers.go S2CellQueryHandler, GeoJSONToCellHandler')])
p('C22','GeoJSON rendering keeps every cell, feature and property in order',
 'Rendering cells gives one feature per cell in order with its token, decimal id, text, level and a closed ring of its four vertices; listing tokens gives one per cell in order. Rendering objects gives one feature per object in order with its geometry and properties, and joining points into a line keeps all their positions in order and refuses anything but points.',
 ['inputs'],'every list of cells and every list of objects',
 'Tests render one cover and one line.',
 ['s2tools/geojsoncells.go',G],[('one feature per element','s2tools/geojsoncells.go CellUnionToGeoJSON, CellUnionToTokens; '+G+' ToGeoJSONFeatureCollection, PointsToGeoJSONPolyLines')])
p('C23','Compaction removes exactly the dead dictionary rows',
 'A successful compaction of a boltdb or goleveldb store removes every record whose key starts with the byte d and whose value is the single byte 0, and changes no other record, for every batch size of at least one. When it fails, no record other than those has been removed.',
 ['inputs','fault_sequences'],'every store content and batch size, engine errors at any step',
 'No test compacts a store.',
 ['store/boltdb/store.go','store/goleveldb/store.go'],[('repeated bounded delete passes','CompactWithBatchSize of both stores')])
p('C24','Opening a store honours its configuration or fails',
 'Opening a persistent store without a non-empty path, or an in-memory store with one, fails with an error and gives no store. Otherwise every recognised option (bucket, sync, fill percentage, read-only, create and exist flags, sizes) reaches the engine with the configured value, defaults apply when it is absent, and an engine error is returned instead of a store.',
 ['configurations'],'every configuration map with any value types',
 'Only the bolt fill percentage is tested.',
 ['store/badger/store.go','store/boltdb/store.go','store/goleveldb/store.go','store/goleveldb/config.go','store/gtreap/store.go'],[('option mapping','New of each backend; store/goleveldb/config.go applyConfig')])
p('C25','The null store accepts everything and stores nothing',
 'On the null store every write succeeds, every read finds nothing, MultiGet returns one nil per key, and every iterator is invalid, whatever was written before.',
 ['inputs','histories'],'every sequence of operations',
 'The test performs one write and one iteration.',
 ['store/null/null.go'],[('constant answers','store/null/null.go')])
p('C26','Concurrent store use is linearizable',
 'Concurrent batch executions and reads on one store behave as if executed one at a time, and no merge is lost.',
 ['schedules'],'every interleaving of goroutines using one store',
 'Tests are single threaded.',
 B,[('engine transactions and the gtreap mutex','ExecuteBatch and Reader of each backend')])
p('C27','Committed batches survive a crash',
 'After a crash at any point, reopening a persistent store shows every batch whose execution returned success and no part of any other batch.',
 ['crash_points'],'every crash point during any history of writes',
 'No test crashes the process.',
 B,[('engine write-ahead logs and sync options','ExecuteBatch and New of each persistent backend')])
p('C28','Covers geometrically contain their object',
 'Every point of an object lies in a cell of its cover, and every cell of an interior cover lies in the object.',
 ['inputs'],'every object on the sphere',
 'Floating point geometry over all shapes cannot be sampled.',
 [G],[('s2 region coverer',G+' geoDataCoverCellUnion')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
