import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H="importer/helpers/dagbuilder.go"; B="importer/balanced/builder.go"; T="importer/trickle/trickledag.go"; M="mod/dagmodifier.go"; U="unixfs.go"; R="io/dagreader.go"; D="io/directory.go"; HA="hamt/hamt.go"; HU="hamt/util.go"
p("C01","Importing preserves the file's bytes",
  "For every sequence of chunks a splitter delivers, every link limit the layout supports (at least 2 for balanced, at least 1 for trickle) and either leaf format, a successful import in the balanced or the trickle layout returns the root of a DAG whose leaves, read in link order from left to right, concatenate to exactly the input bytes. An empty input gives a DAG with empty content.",
  ["inputs","configurations"],"all chunk sequences, link limits, leaf formats and both layouts",
  "Tests import a few random buffers with a few link limits; loss, duplication or reordering at some chunk count / limit combination (e.g. exactly at a capacity boundary of some depth) is not reached.",
  [B,T,H,"importer/importer.go"],[("recursive fill in chunk order","balanced.fillNodeRec, trickle.fillTrickleRec"),("one-chunk look-ahead","helpers.DagBuilderHelper.prepareNext/Next/Done"),("link appended together with its size","helpers.FSNodeOverDag.AddChild")])
p("C02","Recorded file sizes are exact in imported DAGs",
  "In every DAG produced by a successful import, every internal file node records exactly one size per link, in link order; each recorded size equals the number of content bytes under that child, and the node's total file size equals their sum. Every leaf's file size is the length of its data.",
  ["inputs","configurations"],"all chunk sequences, link limits, leaf formats and both layouts",
  "Tests look at the root size and seek within a handful of files; a wrong size on one inner node of one shape is only visible to a seek that lands there.",
  [H,B,T,U],[("block size bookkeeping","unixfs.FSNode.AddBlockSize/UpdateFilesize/SetData"),("size returned with every child","fillNodeRec/fillTrickleRec/NewLeafDataNode")])
p("C03","Balanced layout: equal leaf depth, link limit, left-filled",
  "In a balanced import all leaves are at the same distance from the root, no node has more links than the configured limit, and every internal node except those on the rightmost path is completely full. The depth is the smallest possible for the number of chunks, so the shape is a function of the chunk count and the limit alone.",
  ["inputs","configurations"],"all chunk counts and link limits >= 2",
  "Tests build a few sizes and check only a subset of the shape; a shape deviation at a capacity boundary keeps the content readable and passes.",
  [B,H],[("depth-indexed recursive filling","balanced.Layout, balanced.fillNodeRec"),("per-node limit","FSNodeOverDag.NumChildren < Maxlinks")])
p("C04","Trickle layout shape, and the structure verifier agrees with it",
  "In a trickle import every node holds up to the link limit of direct leaves first and then sub-trees in groups of four whose maximum depth grows by one per group, and a later slot is used only when all earlier ones are full. The structure verifier accepts a DAG exactly when direct children are leaves of the requested kind, inner nodes are data-free file nodes, and no sub-tree is deeper than its position allows.",
  ["inputs","configurations"],"all chunk counts, link limits >= 1, leaf formats; all DAGs for the verifier",
  "Tests use a few sizes with the default limit; group boundaries at deeper levels and verifier acceptance of malformed DAGs are hardly sampled.",
  [T,H],[("depth/repeat loops","trickle.fillTrickleRec"),("leaf layer","helpers.FillNodeLayer"),("structure check","trickle.verifyTDagRec")])
p("C05","Appending to a trickle DAG adds exactly the new bytes at the end",
  "For every well-formed file DAG and every new chunk sequence, a successful append returns a DAG whose content is the old content followed by the new bytes, with exact recorded sizes on every node. Appending nothing leaves the content unchanged.",
  ["inputs","histories"],"all base DAGs (including ones another import or an append left partially filled), all chunk sequences, link limits, and sequences of appends",
  "Tests append to a few DAGs with one limit; the resume point depends on how full each level is, and the many partially filled shapes are not enumerated.",
  [T,H],[("resume position","trickle.trickleDepthInfo, appendFillLastChild, appendRec"),("child replacement","FSNodeOverDag.RemoveChild/AddChild"),("fold of fill over existing nodes","fillTrickleRec, FillNodeLayer")])
p("C06","A successful import or append has stored every reachable node",
  "When an import or append returns success, every node reachable from the returned root (the root of an append excepted, which the caller stores) has been handed to the storage service in the form that is linked, and any error from the input source or from the storage service makes the operation fail rather than return a root. No storage write is skipped, and no node is changed after it was stored.",
  ["inputs","fault_sequences"],"all inputs and layouts; an input or storage failure at any call",
  "Tests run with in-memory services that never fail and keep nodes reachable by luck of caching; failures at every position are not injected.",
  [H,B,T],[("child stored when linked","FSNodeOverDag.AddChild -> DagBuilderHelper.Add"),("root stored last","balanced.Layout, trickle.Layout"),("splitter error latch","DagBuilderHelper.prepareNext/Done/Next")])
p("C07","Filestore references cover the file exactly; oversized leaves are refused",
  "When import runs in no-copy mode with raw leaves, each leaf is stored with a reference to the source path and to the offset of its first byte, so consecutive leaves tile the file without gap or overlap; no-copy without a path is refused. In every mode a chunk longer than the block size limit makes the import fail instead of producing an oversized leaf.",
  ["inputs","configurations"],"all chunk sequences, both layouts, all mode combinations",
  "Tests check offsets for one file with fixed-size chunks; variable chunk sizes and limits at the boundary are not covered.",
  [H,"importer/helpers/helpers.go"],[("running offset","DagBuilderHelper.ProcessFileStore"),("limit check","DagBuilderHelper.NewLeafNode"),("no-copy enforcement","DagBuilderParams.New")])
p("C08","Sequential reading returns the file content exactly once, then EOF",
  "For every well-formed file DAG and every sequence of read calls with any buffer sizes, mixed with a streaming write-out, the bytes delivered are the file content in order, without loss or repetition, and end of file is reported exactly when the content is exhausted. A read returns fewer bytes than asked only together with an error or end of file, and the reported size equals the content length; directories and symlinks are refused.",
  ["inputs","histories"],"all well-formed DAGs, all sequences of read/write-out calls",
  "Tests read a few files with a few buffer sizes; the state carried between calls (partially consumed leaf) has many boundary alignments they do not reach.",
  [R,U],[("leaf visitor and carried-over buffer","dagReader.CtxReadFull, readNodeDataBuffer, writeNodeDataBuffer, WriteTo"),("leaf data extraction","unixfs.ReadUnixFSNodeData")])
p("C09","Seeking positions the reader exactly where requested",
  "After a successful seek by any of the three origins to a position within the file (its end included), the reported offset is the requested one and the next read delivers the content from exactly that offset. A negative target or unknown origin fails, and after a failed seek the reader does not silently deliver bytes from a position other than the one it reports.",
  ["inputs","histories"],"all well-formed DAGs, all interleavings of seeks and reads",
  "Tests seek to selected offsets of a few files; every child boundary at every depth, and every preceding reader state, is out of their reach.",
  [R],[("descent by child sizes","dagReader.Seek"),("position reset","dagReader.resetPosition"),("offset bookkeeping","dagReader.offset")])
p("C11","Random-access writes change exactly the bytes they cover",
  "After any sequence of writes at the current position or at explicit offsets, seeks, reads, truncations and syncs through a file modifier, the file content equals that of a plain byte array subjected to the same operations: each write replaces the bytes it covers, extends the file when it passes the end, and zero-fills any gap. The number of bytes reported as written is the number taken.",
  ["inputs","histories"],"all initial file DAGs, all operation sequences, all offsets and lengths",
  "Tests run a few fixed sequences; buffering makes the result depend on the whole history of offsets, which they barely vary.",
  [M,T],[("write buffer and its start offset","DagModifier.WriteAt/Write/Sync"),("in-place overwrite of leaves","DagModifier.modifyDag"),("growth","appendData, expandSparse")],
  [("wrBuf,writeStart,curWrOff","pending bytes, their offset and the current position",M)])
p("C12","Truncating yields exactly the prefix (or the zero-extended file)",
  "Truncating a file to any size gives the original content cut to that size, or extended with zero bytes when the size is larger, and the recorded sizes of the resulting DAG are exact so that reading, seeking and further edits behave accordingly. Truncation to the current size changes nothing.",
  ["inputs","histories"],"all initial file DAGs, all target sizes, following any edits",
  "Tests truncate a few files at a few sizes; cuts at child boundaries, to zero, and of differently shaped DAGs are not covered.",
  [M],[("recursive cut","DagModifier.dagTruncate"),("growth","DagModifier.expandSparse")])
p("C13","A modifier's size, position and reads agree with its pending writes",
  "At every point of a history of operations on a file modifier, the size it reports is the size of the logical file including pending writes, reads continue at the current position and see all earlier writes, and a seek from start, current position or end moves to exactly that position. The node it hands out has the same content and size.",
  ["inputs","histories"],"all operation histories over all initial files",
  "Tests check size and reads after isolated operations, not after histories that mix buffered writes, seeks and reads.",
  [M],[("logical size","DagModifier.Size"),("read-after-write","readPrep, Read, CtxReadFull"),("positioning","DagModifier.Seek")])
p("C14","Editing never changes nodes the caller already holds",
  "A node passed to a file modifier, and every node it has handed out before, keeps its content, links, sizes and identifier unchanged whatever is done with the modifier afterwards. The same holds for the node a directory was loaded from when the directory is edited.",
  ["inputs","histories"],"all initial nodes and all later operation histories",
  "Tests look only at the latest node; aliasing between old and new nodes is invisible to them.",
  [M,D,HA],[("copy on entry and exit","NewDagModifier, GetNode (node Copy)"),("edits build new nodes","modifyDag, dagTruncate"),("directory copy on load","NewDirectoryFromNode")])
p("C15","UnixFS node encoding round-trips and size accounting is exact",
  "Encoding a UnixFS node or metadata value and decoding the bytes yields the same type, data, child sizes, file size, fan-out and hash type, and the convenience encoders (file, folder, raw, symlink, shard) produce exactly the values they are named for. After any sequence of adding and removing child sizes and setting data, the recorded file size is the data length plus the sum of the child sizes.",
  ["inputs","histories"],"all field values and all sequences of edits",
  "Tests encode a few values and a few edit sequences; the accounting identity must hold after every history.",
  [U],[("size deltas","FSNode.UpdateFilesize/AddBlockSize/RemoveBlockSize/SetData/RemoveAllBlockSizes"),("encoders/decoders","GetBytes, FSNodeFromBytes, FilePBData, FolderPBData, WrapData, SymlinkData, HAMTShardData, BytesForMetadata, MetadataFromBytes, DataSize")])
p("C16","A sharded directory behaves as a map from names to links",
  "For every history of insertions, replacements, removals and lookups on a sharded directory, interleaved with saving and reloading, lookup returns the link last set under that name (or not-found), insertion and removal report the previous link under that name, and no operation disturbs any other name. Removing an absent name fails with not-found and changes nothing.",
  ["inputs","histories"],"all name sets (hash collisions on any prefix included), all widths, all histories",
  "Tests insert random names into wide tables; deep collisions, collapses and reload interleavings are rare in their samples.",
  [HA,HU],[("recursive descent","Shard.swapValue, getValue"),("slot bookkeeping","childer.insert/set/setLink/rm/get/sliceIndex, bitfield")],
  [("children/links/bitfield","one of child or link per set bit, in bit order",HA)])
p("C17","A sharded directory's form depends only on its entries",
  "Two sharded directories of the same width holding the same entries serialize to the same node, whatever sequence of insertions, replacements and removals, in whatever order and with whatever intermediate saves and reloads, produced them. In particular removals collapse sub-shards that are left with one entry or none.",
  ["inputs","histories"],"all histories leading to the same entry set",
  "Tests compare a few orders of random insertions and removals; collapse through several levels and with unloaded children is rarely met.",
  [HA],[("collapse on removal","Shard.swapValue"),("fork on collision","Shard.swapValue"),("link order by index, padded hex prefix","Shard.Node, linkNamePrefix")])
p("C18","Hash-bit slicing consumes the name's hash exactly, and never beyond",
  "Successive child indices drawn for a name are consecutive, non-overlapping big-endian bit groups of its hash, each within the table width, independent of how the groups straddle byte boundaries; drawing past the end of the hash is reported as an error rather than yielding an index. Only powers of two are accepted as table width, and the derived index width is exactly the base-2 logarithm.",
  ["inputs"],"all hashes, all bit widths and positions; all integers as width",
  "Tests check a handful of hashes and widths.",
  [HU],[("bit slicing","hashBits.Next/next, mkmask"),("width check","Logtwo")])
p("C19","Shard serialization and loading are inverse",
  "Serializing a sharded directory and loading the result gives a directory with the same entries, width and hash function, and every node written has exactly one link per set bit, in index order, each link name beginning with the index in fixed-width upper-case hexadecimal followed by the entry's name for entries and by nothing for sub-shards. This holds also when only some sub-shards have been loaded or changed, and for every sub-shard written.",
  ["inputs","histories"],"all directory states, loaded partially or fully; all widths",
  "Tests reload whole directories right after building; partially loaded states and narrow or wide tables are barely covered.",
  [HA],[("serialization","Shard.Node, Link, linkNamePrefix"),("loading","NewHamtFromDag, makeChilder, loadChild, makeShardValue, childLinkType")])
p("C20","Listings are complete, duplicate-free, or end in an error",
  "Every way of listing a directory (callback, collected links, asynchronous stream, iteration as a file tree) yields each entry exactly once under its plain name, or reports an error; a storage failure or a cancelled context never makes a partial listing look like a complete one. Listing does not change the directory.",
  ["inputs","schedules","fault_sequences"],"all directories, all fetch failures and cancellation points, all interleavings of the parallel walk",
  "Tests list healthy directories with background contexts; failure or cancellation at each point of the parallel walk is not explored.",
  [HA,D,"file/unixfile.go"],[("walk of one shard","Shard.walkChildren"),("parallel walk","parallelShardWalk, EnumLinksAsync, emitResult"),("collection","EnumLinks, ForEachLink")])
p("C21","Directories are maps, and their size estimate and form follow the entries",
  "For every history of additions, replacements, removals and lookups a directory behaves as a map from names to nodes, unaffected by automatic changes between the flat and the sharded form. A flat directory's size estimate always equals the sum over its entries of name length plus identifier length; with the size option on, a directory becomes sharded when an addition brings that total to the threshold or above and, once that has been the case, returns to the flat form when an operation that shrinks it brings the total below; with the option off it never changes form.",
  ["inputs","histories","configurations"],"all histories of operations, all thresholds and widths",
  "Tests walk across one threshold with fixed-size names; estimates after replacements, removals, reloads and conversions are not systematically covered.",
  [D,"private/linksize/linksize.go"],[("estimate bookkeeping","addToEstimatedSize, removeFromEstimatedSize, computeEstimatedSize"),("switch decisions","needsToSwitchToHAMTDir, needsToSwitchToBasicDir, sizeBelowThreshold"),("conversion","switchToSharding, switchToBasic, DynamicDirectory.AddChild/RemoveChild")])
p("C22","Malformed nodes give errors, not panics or runaway work",
  "Opening, reading, seeking, listing, resolving in, or loading as a directory any node obtained from an untrusted source, whatever its bytes, links, sizes and flags, returns a result or an error and never panics. In particular inconsistent sizes, link counts, bitmaps, widths and link names are tolerated or reported.",
  ["inputs"],"all node contents",
  "Tests feed a few hand-made malformed nodes; the space of inconsistent nodes is unbounded.",
  [U,R,HA,D,"io/resolve.go","file/unixfile.go"],[("decode error paths","FSNodeFromBytes, NewHamtFromDag, makeShard, newChilder"),("index checks","childer.check, childLinkType"),("seek hints check","dagReader.Seek")])
p("C23","The file-tree view mirrors the DAG",
  "Presenting a node as a file tree gives a directory for directory nodes (flat or sharded), a symlink with the stored target for symlink nodes, and a readable file with the content and content length for file and raw nodes; iterating a directory yields every entry once with its plain name and its own sub-tree. Any failure to load an entry ends the iteration with an error.",
  ["inputs","fault_sequences"],"all nodes, all entry sets, failures at any fetch",
  "Tests view one small tree; kinds, sharded directories and failing fetches are not combined.",
  ["file/unixfile.go"],[("dispatch on node kind","NewUnixfsFile, newUnixfsDir"),("iterator","ufsIterator.Next, ufsDirectory.Entries")])
p("C24","Resolving one path segment agrees with directory lookup",
  "Resolving the first segment of a path in a flat or sharded directory node returns the link that a lookup of that name in the directory gives, together with the remaining segments, and a not-found error exactly when the directory has no such entry. Nodes that are not UnixFS are resolved by their own links.",
  ["inputs"],"all directory nodes, flat and sharded, all paths",
  "Tests resolve one name in one shard.",
  ["io/resolve.go",HA],[("segment resolution","ResolveUnixfsOnce"),("lookup","hamt Shard.Find/getValue")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
