CLAIMED = {
 "C01": "GeoIdsAtCell of the flat index under contract over an abstract ordered store; the store and its iterators by their interface contracts",
 "C02": "GeoIdsAtCell of the point index under contract; s2 cell range by its contract",
 "C03": "GeoIdsRadiusQuery and GeoIdsRectQuery of the point index under contract: the answer is the list of the accepted keys of the cells of the covering, in order; region membership and covering by contracts on s2",
 "C04": "time index queries under contract; the window walk over an abstract ordered store",
 "C05": "multi-cell queries under contract on top of the single-cell ones",
 "C06": "index writes under contract: the batch handed to the store is fully characterised",
 "C07": "ownership: returned ids are fresh memory, arguments and index are not modified (frame conditions)",
 "C08": "ghost counters of open readers, iterators and failed store calls",
 "C16": "Cover, InteriorCover and the loop helpers under contract: which points and levels are handed to the region coverer, and that the result is what it returned",
 "C14": "EmulatedBatch and EmulatedMerge under contract: every Set, Delete and Merge copies its arguments into fresh memory, Reset empties; rep invariant on the batch's slices",
 "C09": "ExecuteBatch of all four back ends under contract: on every path the store is unchanged when an error is returned, a foreign batch is refused, and every lock and transaction opened is released; bolt, badger, leveldb and treap engines by assumed contracts",
 "C10": "ExecuteBatch of all four back ends under contract: the content afterwards is the content before with the batch's operations applied in order; engines by assumed contracts",
 "C11": "Reader, Get, MultiGet and Close of all four back ends under contract: the reader answers from the content at the time it was made; engines by assumed contracts",
 "C12": "prefix iterators of bolt, goleveldb and badger under contract against ordered-map semantics for Seek, Next, Current, Key, Value, Valid; engines by assumed contracts; the gtreap iterator (goroutine and channels) is out of the verifier's reach: bounded random histories only",
 "C13": "range iterators of bolt, goleveldb and badger under contract against ordered-map semantics; engines by assumed contracts; the gtreap iterator (goroutine and channels) is out of the verifier's reach: bounded random histories only",
 "C15": "EmulatedMerge and the merge loops of ExecuteBatch of all four back ends under contract: the value stored is the full merge of the value before with the operands in order",
 "C25": "all methods of the null store under contract against the store interfaces with empty content",
 "C17": "GeomToGeoData, GeoDataToGeom and GeoJSONFeatureToGeoData under contract over the go-geom structures; go-geom constructors and accessors executed from the dependency's source",
 "C18": "PropertiesToGeoData, PropertiesToJSONMap and GeoJSONFeatureToGeoData under contract: which values are accepted, what each becomes, and what stays as it was",
 "C19": "CellUnionUnion and CellUnionMissing under contract: sorted, duplicate free, same members; difference counted with multiplicity and in order",
 "C20": "ParseCellID under contract: face/child notation as a walk down the hierarchy, tokens and decimal numbers through assumed contracts on s2 and strconv",
 "C22": "CellUnionToGeoJSON, CellUnionToTokens, ToGeoJSONFeatureCollection and PointsToGeoJSONPolyLines under contract: the document handed to the JSON encoder is fully characterised; the encoder itself by an assumed contract",
}
