import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,**({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
SP='src/toron/space.py'; DC='src/toron/dal1/data_connector.py'; RE='src/toron/dal1/repositories.py'; SC='src/toron/dal1/schema.py'; DS='src/toron/data_service.py'; GR='src/toron/graph.py'; RD='src/toron/reader.py'; MI='src/toron/dal1/migrations.py'; LM='src/toron/dal1/label_manager.py'; MP='src/toron/mapper.py'; CLI='src/toron/cli/'

p('P01','Saving a space to a file is crash-atomic and, when synced, durable',
 'Saving a space to a path leaves that path, at whatever instant the process is killed, holding either exactly what it held before or a complete readable file with the whole saved space. If power is lost during a synced save, dropping or tearing any data not yet flushed, the path still holds the complete old or the complete new file. Once a synced save has returned, a power loss can no longer bring back the old content or damage the new file.',
 ['crash_points','histories','configurations'],'every kill or power-loss point between the first and last file operation of a save, every subset and tearing of unflushed writes, every space content, every storage mode of the saved space, destination existing or not',
 'Tests call the save once and look at the result after it has returned; none stops in the middle of it or drops unflushed data.',
 [DC,SP],[('temporary file in the same directory + atomic replace + fsync of file and directory','DataConnector.save_to_file')],['the destination path after each simulated crash, opened with read_file and bind_file'])
p('P02','A failed save reports the error and changes nothing',
 'When any step of saving a space fails (a failing, short or interrupted system call, a full disk, lack of memory, an interrupted storage operation, a keyboard interrupt once the temporary file has been created), the caller sees an exception, the destination still holds exactly its previous content or, only if the failure came after the new file was already in place, the complete new content, and no stray file is left next to it. The space being saved is unchanged and a later save of it succeeds. A save that returns normally has written the whole space, whatever transient failures occurred inside it.',
 ['fault_sequences','configurations','histories'],'every single (and repeated) fault at every system call, storage step and allocation of a save, for every space content, storage mode, destination state and sync setting',
 'The suite tests two permission errors; it never makes a system call or a storage step fail in the middle of a save.',
 [DC,SP],[('cleanup handler around the save','DataConnector.save_to_file')],['exception of to_file', 'directory listing and content of the destination', 'content of the space afterwards'])
p('P03','Every storage mode holds the same space, and a saved file reloads identically',
 'A space kept in memory, cached in a temporary file, bound to a file for writing, or read from a file behaves identically: the same sequence of operations gives the same results, the same accepted and rejected operations and the same final content in every mode. Saving a space and reading, caching or binding the saved file yields the same identity, record ids, labels, structure, weights, attributes, quantities, links and mappings, and continuing the sequence after any number of such moves gives what continuing without them gives. Distinct newly created spaces have distinct identities.',
 ['histories','configurations','inputs'],'every operation history, every assignment of storage modes and every placement of save, reload, rebind and close steps in it',
 'Tests exercise nearly all operations on in-memory spaces only and compare a handful of fields after one save.',
 [DC,SP,SC],[('per-connection setup of constraints and triggers',SC+' create_functions_and_temporary_triggers'),('backup/VACUUM based copy',DC)],['public listing and selection methods of the space in each mode'])
p('P04','Every modifying operation is all-or-nothing when it fails',
 'If a method of a space that modifies it fails at any point (a malformed or rejected row late in its input, an input iterator that raises, a failing or interrupted storage step, a full disk, lack of memory, a keyboard interrupt), then the exception reaches the caller and the space, in memory or on file, is left exactly as it was before the call. An operation that returns normally has had its complete effect, with no part of it lost. After a failure the space stays fully usable: the same operation repeated without the fault gives the result it would have given in the first place.',
 ['fault_sequences','inputs','histories','configurations'],'every modifying operation, every prior history, every fault kind and every point inside the operation, every storage mode',
 'Tests check a few validation errors and mostly only that an exception is raised; no test injects a fault inside an operation and compares the whole content.',
 [SP,DC,RE],[('one transaction per operation','DataSpace._managed_transaction')],['full logical content before and after, via public methods'])
p('P05','A space bound to a file survives crashes at any point',
 'When a process modifying a file-bound space is killed at any point, reopening the file gives a readable, internally consistent space containing exactly all the operations that had returned, and the operation in progress either entirely or not at all. After a power loss that drops or tears unflushed data, the reopened file is likewise consistent and equals the state after all returned operations, or after all but the last one, or with the one in progress included. A file caught while being created is either a complete empty space or is refused as not being one, never opened half-made.',
 ['crash_points','histories','fault_sequences'],'every operation history on a bound file, every kill and power-loss point within it, every subset and tearing of unflushed writes, repeated crashes',
 'No test terminates a process or discards writes; the suite opens bound files only after clean closes.',
 [DC,SP,SC],[('one transaction per operation on a journaled file','DataSpace._managed_transaction'),('schema creation',SC+' create_node_schema')],['the file reopened with bind_file and read_file after each simulated crash'])
p('P06','Concurrent users of one file are serialised with no lost update',
 'When several users modify and read the same file through their own bindings at the same time, the final content, and every complete read, equals what some one-at-a-time order of the successful operations (respecting which finished before which started) would give. An operation that reports failure because the file is busy has had no effect. Once competitors are done, every user can make progress again; nobody is left locked out.',
 ['schedules','histories'],'every interleaving, at file-operation granularity, of two to four users each running a short program of modifying and reading operations, with lock waits and timeouts',
 'The suite never has two users active on one file; interleavings at file-operation level are outside its control.',
 [SP,DC],[('a transaction per operation with the file lock taken at the first statement','DataSpace._managed_transaction / DataConnector.transaction_begin')],['return or exception of each operation, content of the file at the end'])
p('P07','Read-only bindings and source files are never modified',
 'Binding a file read-only, or reading it into memory or a cache (a current-format file not in need of crash recovery), and then running any sequence of operations on that space never changes the file or leaves anything beside it. Through a read-only binding every attempt to modify the space raises an error, while reading operations give the same results as on the original. Binding for read-only or read-write never creates a file that did not exist.',
 ['histories','configurations','fault_sequences'],'every operation history on a space from a read-only binding or a read file, with faults, in every storage mode',
 'Tests check single modifications and do not compare file bytes after histories of operations.',
 [DC,SP,MI],[('access mode carried to each connection','DataConnector.bind_file / acquire_connection'),('copy on read','DataConnector.read_from_file')],['file bytes, permissions and directory before and after; exceptions'])
p('P08','Index records keep their identity',
 'The id of an index record never changes and is never given to another record, even after deletions, merges, failures, crashes, and reloads; new ids always exceed every id handed out before. No two records have the same labels, no record has an empty label, and the undefined record with id 0 always exists, with fixed labels, and cannot be relabelled, merged or deleted. The index fingerprint of a space is determined by its current set of ids alone, so that two spaces or moments with equal sets have equal fingerprints and others differ.',
 ['histories','inputs','fault_sequences'],'every history of inserting, relabelling, merging and deleting index records, with failed operations, crashes and reloads in between',
 'Tests look at ids after one or two operations on fresh spaces.',
 [SP,RE,SC,DS],[('AUTOINCREMENT key, unique index and triggers on the undefined record',SC),('refresh of the fingerprint','refresh_index_hash_property')],['select_index, max_index_id, fingerprint carried by select_weights'])
p('P09','Weight groups report completeness exactly and keep weights valid',
 'In a space that has index records, and unless a caller explicitly overrides it, a weight group is reported complete exactly when every index record apart from the undefined one has a weight in it, after every insertion, update, deletion and merge of records or weights. A group holds at most one weight per record, never a negative or non-finite one and none on the undefined record, and each weight operation changes exactly the weights its input names, to the values given. Merging index records adds up their weights.',
 ['histories','inputs','fault_sequences'],'every history of group, weight and index operations including conflict policies, invalid rows, failures and reloads',
 'Tests check the flag after single operations on small fixtures.',
 [SP,RE],[('recomputation of the completeness flag in each operation','insert_index, update_index, delete_index, insert_weights, update_weights, delete_weights')],['weight_groups, get_weights / select_weights'],)
p('P10','Links keep correct shares, coverage and fingerprints',
 'In every link, the shares of each source record that has mappings add up to one and are proportional to the mapping values (equal shares when all values are zero, except that a mapping merged with another by merging index records keeps the sum of their shares), and mapping operations change exactly the mappings their input names. In a space that has index records, a link is reported locally complete exactly when every one of them (apart from the undefined one) is covered by one of its mappings, its fingerprint of the source space is the fingerprint of the set of mapped source ids together with 0, and at most one link from a given source is the default one. This holds after every insertion, update, deletion and merging of mappings or of index records.',
 ['histories','inputs','fault_sequences'],'every history of link, mapping and index operations including merges, ambiguous mappings, failures and reloads',
 'Tests inspect these fields after isolated calls with fixed data.',
 [SP,RE,DS,GR],[('share refresh','MappingRepository.refresh_proportions'),('merge','MappingRepository.merge_by_index_id'),('flag and hash refresh','insert_mappings2, insert_mappings, update_mappings, delete_mappings, insert_index, update_index, delete_index, delete_index_record')],['links, get_link, select_mappings, get_mapping; shares via translation'])
p('P11','Removing something removes everything that belongs to it and nothing else',
 'Deleting an index record also removes its weights and mappings; dropping a weight group removes its weights; dropping a link removes its mappings; deleting unmatched quantities removes exactly the quantities that no longer match any record or structure. Nothing else in the space changes, in any storage mode. Creating a new group, link or record, even under a reused name, never brings back data of a removed one.',
 ['histories','configurations'],'every history containing removals and re-creations, in every storage mode, with reloads and failures in between',
 'Tests run removals on in-memory spaces and look only at the removed rows.',
 [SP,RE,SC,DS],[('foreign keys with cascading deletes, enabled per connection',SC),('explicit cascade','delete_index_record')],['full logical content through public methods'])
p('P12','The partition structure always matches definitions and index, and gates data',
 'The levels at which a space can hold data are always exactly the unions of its partition definitions (always including the set of all label columns and nothing outside them), and the granularity of each is that of the current index, after any change to definitions or index records. Quantities and mappings are accepted at exactly those levels: unless the caller explicitly allows invalid ones, a row at any other level or whose labels match no record is rejected, or skipped, and never stored.',
 ['histories','inputs','configurations'],'every history of label-column, partition and index operations, with quantities and mappings at every level',
 'Tests check the structure after single edits; the closure under union and the refresh of granularity after arbitrary histories is not sampled.',
 [SP,DS,'src/toron/partitions.py',RE],[('rebuild/refresh of the structure table','rebuild_structure_table, refresh_structure_granularity, add_partition_definition, remove_partition_definition')],['partition_definitions, acceptance of quantities and mappings'])
p('P13','Disaggregation conserves totals and follows the weights',
 'Selecting the data of a space at record level yields, for every combination of attributes, values whose total equals the total of the matching stored quantities (those stored at a level that is no longer part of the structure are left out, and one that matches no record, or an incomplete default weight group, is an error), with each coarse quantity spread only over the records it covers, in proportion to the weights of the applicable weight group (evenly if all are zero), and quantities already at record level kept as they are. With quantising on, the parts are whole numbers, up to one fractional remainder, that still add up exactly. The result does not depend on storage mode, caching, or on other work interleaved with its creation; labels are shown as they are when the rows are read.',
 ['inputs','histories','configurations','fault_sequences'],'every stored data set, partition level, weight assignment, attribute selection and reader configuration, after every history',
 'Tests compare a few hand-computed tables.',
 [SP,DS,RD],[('disaggregate_value, _disaggregate',DS+', '+SP),('reader storage',RD)],['rows of the reader returned by calling the space'])
p('P14','Translation between spaces conserves totals and follows the link shares',
 'Translating data from one space to another over a fully covering link conserves the total of every attribute combination, and each source record contributes to each target record exactly its link share, through the current, complete link whose selectors match the attributes most specifically, or the default link; data of the undefined record stays undefined. Translating when there is no current and complete default link raises an error. A translation that fails leaves the data being translated as it was and still usable, and does not modify either space.',
 ['inputs','histories','configurations','fault_sequences'],'every pair of spaces, mapping, link set, data set and reader configuration, including stale links and faults during translation',
 'Tests translate small fixed tables without faults and without changes of the spaces in between.',
 [RD,GR,DS,SP],[('NodeReader.translate',RD),('translate',GR),('choice of link',DS+' make_get_link_id_func')],['rows of the translated reader or iterator'])
p('P15','No temporary file outlives its owner',
 'Temporary files used for caching spaces, for readers, and for saving are removed when the owner is closed or, for spaces, garbage-collected, and in any case when the process exits normally; closing twice is harmless. If creating the owner or saving fails at any point, nothing is left behind. Files belonging to other, still living owners are never removed.',
 ['fault_sequences','histories','configurations'],'every history of creating, using, closing, failing and dropping cached spaces, readers and saves',
 'Tests check one reader being closed; failures during creation are not exercised.',
 [DC,RD],[('weakref finalizers','DataConnector.__init__, read_from_file, NodeReader.__init__'),('cleanup in save','save_to_file')],['directory of temporary files'])
p('P16','Opening a file of an older format upgrades it losslessly and atomically',
 'Reading, caching or read-write binding a file of an older supported format yields a space with the same identity and all the same index records, weights, attributes, quantities, links and mappings. Upgrading in place is all-or-nothing: after any failure or crash the file is still the old one, openable and upgradable again, or completely upgraded; reading never changes the old file, read-only binding refuses it without changing it, and opening an upgraded file changes nothing further.',
 ['crash_points','inputs','fault_sequences'],'every content of an old-format file, every crash point and fault during the upgrade, each way of opening it',
 'Tests upgrade one fixture in memory with no failure.',
 [MI,DC],[('migration in one transaction','apply_migrations')],['content via public methods, file bytes'])
p('P17','Command-line edits apply completely or not at all, and backups are exact',
 'A command that edits one file either exits with code zero and its complete effect (the same as the edit made through the API), or exits with a non-zero code leaving the file and everything else in its directory as it was, whatever its input, arguments, prior files or failing steps; one that edits two files edits each entirely or not at all, and on wrong arguments neither (only the second direction of a two-way mapping load may be refused after the first). The backup is an exact copy of the file before the command, put in place before any change to it. Exports that exit with code zero are complete, and exporting index, quantity or unambiguous mapping data and loading it again reproduces the same data.',
 ['inputs','fault_sequences','crash_points'],'every command, input stream (well-formed, truncated, malformed late), prior file content, fault and crash point',
 'CLI tests run commands on good inputs with mocks and no faults.',
 ['src/toron/cli/main.py','src/toron/cli/common.py',CLI+'command_index.py',CLI+'command_quantity.py',CLI+'command_mapping.py'],[('exit codes and backup','cli/common.py, cli/main.py')],['exit code, files before and after, output'])
p('P18','Partly consumed or abandoned iterators never block or corrupt a space',
 'Data being read from a space row by row never changes the space, and once it has been read to its end, closed, dropped or has failed, it never prevents later operations on the space, its file or its readers from succeeding. Several readings open at once, of one or several spaces and readers, each give the rows they would give alone. Input rows that are themselves read lazily from one space can be fed to a modifying operation on another space with the same result as the same rows collected beforehand.',
 ['schedules','histories','fault_sequences'],'every interleaving of row-by-row readings with each other, with their closing, abandonment or failure and with modifying operations, in every storage mode',
 'Tests consume iterators completely at once.',
 [SP,RD,GR],[('cursor and connection scoping','DataSpace._managed_cursor'),('eager initialisation',SP),('pivot of a reader','reader.pivot_reader')],['rows, exceptions, content of the space'])
p('P19','Loading quantities is exact, complete and follows the conflict policy',
 'Loading quantities stores, for each accepted row, exactly its labels, attributes and value; a row for labels and attributes already stored is rejected with the whole load, ignored, replaces the value, or is added to it, according to the policy chosen, and no other quantity changes. Rows with a wrong domain, unregistered attributes, unmatched labels or non-numeric values are never stored. What is selected back is exactly what was stored, whatever the order in which it was loaded and however the load was split.',
 ['inputs','histories','fault_sequences'],'every sequence of loads with every policy, row order, split, invalid rows, faults and reloads',
 'Tests load a few rows on fresh spaces.',
 [SP,RE],[('insert_quantities2',SP),('unique key on location and attributes',SC)],['select_quantities2'])
p('P20','Changing label columns or ordering keeps every record and its data',
 'Adding, renaming and reordering label columns or attributes never loses or alters index records, ids, weights, quantities, or mappings; each record keeps its labels under the old or new column names and gets the undefined label in added columns. Column, partition and attribute names stay valid, distinct and consistent with each other, and the display order is always a permutation of the current columns. Rejected changes leave everything as it was.',
 ['histories','inputs','fault_sequences','configurations'],'every history of column and attribute changes interleaved with data operations, reloads and failures, for arbitrary valid names',
 'Tests use plain names and one change at a time.',
 [LM,SP,DS],[('column DDL over three tables',LM),('partition and display-order maintenance',DS)],['index_columns, get_label_columns, partition_definitions, full content'])
p('P21','Loading a mapping file stores exactly the shares its rows describe',
 'Loading a mapping file between two spaces stores in the link, for each row that matches records of both, its value divided among the pairs of matching records in proportion to the default weights of each space (evenly where these total zero), summed over the rows, and nothing else; a row identified by an index code matches exactly that record. Rows that match no record, more records than the match limit, or several records not all having weights are skipped with a warning (and, unless overlapping is allowed, records already matched at a finer level are left out of coarser rows), and a value that is not a non-negative number, an unknown partition or, unless incomplete mappings are allowed, a load that leaves any record of either space unmapped is refused with nothing stored. Listing the mappings shows each stored mapping and each unmatched record exactly once.',
 ['inputs','configurations','histories','fault_sequences'],'every mapping file, pair of spaces, set of levels, weights, option and storage mode, with faults during the load',
 'Tests load a few rows between two small fixed spaces.',
 ['src/toron/mapper.py',GR,CLI+'command_mapping.py'],[('matching of rows to records','Mapper.match_records'),('sharing of values','Mapper.get_relations, translation of both sides'),('command-line reader','command_mapping')],['select_mappings, command-line listing, messages, exit code'])
p('P22','Metadata reads back as given, and malformed metadata is never stored',
 'Selectors of weight groups and links are always lists of text, user properties of links are objects, attribute values are non-empty text and the domain is text: creating, editing or loading anything with malformed ones is rejected and changes nothing, on every connection and in every storage mode. Accepted names, descriptions, selectors, user properties, file hints, defaults and the domain read back exactly as given, from whichever listing, after any further operations, failures, crashes, saves and reloads. Editing one group or link changes nothing but the named fields of it (and the default mark of the other links to the same space).',
 ['inputs','histories','configurations','fault_sequences'],'every history of creating, editing and removing groups and links, loading quantities and setting the domain with well-formed and malformed values, in every storage mode, with reloads, moves, faults and crashes',
 'Tests check the constraints on one raw connection and a few values on fresh in-memory spaces.',
 [SC,RE,SP],[('constraints created for every connection',SC+' create_triggers_selectors, create_triggers_user_properties, create_triggers_attributes'),('conversion to and from JSON',RE)],['weight_groups, links, get_weight_group, get_link, domain, exceptions'])
p('P23','A finished call holds no lock, transaction or descriptor, however it ended',
 'After any call of a space, reader, save, open or load, whether it completed, was rejected, failed or was interrupted, no lock, transaction or open descriptor remains beyond what open readings and living objects need. While the caller still keeps the exception (after an interrupt: once it has let it go) every other user can modify the files at once, and the space itself accepts any further operation.',
 ['fault_sequences','inputs','configurations'],'every call, input, storage mode, failing step and interruption, with the exception kept or dropped',
 'Tests never examine locks or descriptors after failures.',
 [SP,DC,RD,'src/toron/graph.py'],[('scoping of connections, cursors and transactions','DataSpace._managed_connection, _managed_cursor, _managed_transaction'),('release of connections','DataConnector.release_connection'),('creation and closing of readers','NodeReader')],['locks of the files, exceptions of further operations, /proc/self/fd'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
    n=len([s for s in x['statement'].replace('e.g.','').split('. ') if s.strip()]); assert n<=3,(x['id'],n)
