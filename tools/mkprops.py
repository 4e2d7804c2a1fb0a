import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),state=[dict(name=n,meaning=m,where=w) for n,m,w in state],hook_needed=None)))
SA='src/gaspra/suffix_automaton.py'; MS='src/gaspra/multiple_strings.py'; WR='src/gaspra/wrappers.py'
CS='src/gaspra/changesets.py'; MG='src/gaspra/merge.py'; CM='src/gaspra/common.py'; SE='src/gaspra/serialize.py'
TK='src/gaspra/tokenizers.py'; VE='src/gaspra/versions.py'; MT='src/gaspra/memory_tree.py'; DT='src/gaspra/db_tree.py'; DS='src/gaspra/db_tree_sql.py'; DC='src/gaspra/db_collections.py'
MF='src/gaspra/manifest.py'; DL='src/gaspra/diff_to_lines.py'; MK='src/gaspra/markup.py'; MTl='src/gaspra/merge_tool.py'
I=['inputs']
p('S01','The pairwise longest common run is genuine, longest and earliest',
 'For any two sequences (text, bytes or hashable tokens) the reported (position in a, position in b, length) names a run that really occurs at both positions, no longer run is common to the two, and each position is the first occurrence of that run in its sequence. When nothing is common the answer is (0, 0, 0).',
 I,'every pair of sequences over any alphabet; checked for all pairs up to a stated total number of tokens',
 'Tests sample about ten pairs and only check local maximality; correctness depends on the repetition structure of both sequences.',
 [SA,WR],[('build / extend / insert_node','suffix_automaton.py'),('find_lcs','suffix_automaton.py'),('find_lcs wrapper','wrappers.py')],['gaspra.find_lcs'])
p('S02','Substring search reports exactly the occurrences',
 'Searching a sequence for a pattern yields every start position at which the pattern occurs (overlapping ones included), each exactly once, in increasing order, and nothing else; the empty pattern occurs at every position including the end. The single-result search yields the first occurrence, or nothing if there is none.',
 I,'every text and every pattern over any alphabet, up to a stated total size',
 'Tests look at fixed strings and, for tokens, never confirm that a reported absence is real.',
 [SA,WR],[('find_substring_all / find_substring','suffix_automaton.py'),('reverse links and endpos','suffix_automaton.py')],['gaspra.find_substring'])
p('S03','The n-way longest common run is common to all, longest, and earliest',
 'For any collection of one or more sequences, the reported length is the largest length of a run occurring in every one of them, and the reported positions are, for one such run, its first occurrence in each sequence. No token value whatsoever (including tokens that are themselves tuples) can be confused with the boundaries between the sequences.',
 I,'every tuple of 1..k sequences over any hashable tokens, up to a stated total size',
 'Tests have nine fixed collections; boundary confusion needs particular tokens and the membership bookkeeping depends on the shape of the automaton.',
 [MS,SA],[('concatenate_strings / Separator','multiple_strings.py, types.py'),('shared-string membership','multiple_strings.py'),('get_string_offsets','multiple_strings.py')],['gaspra.find_lcs_multiple'])
p('S04','The search automaton recognises exactly the substrings and suffixes',
 'The automaton built for a sequence accepts a query if and only if it is a contiguous part of the sequence, and enumerating its terminal paths yields every suffix (including the empty one) exactly once and nothing else. This holds for every build option that leaves terminal marking on.',
 I,'every sequence and query over any alphabet, up to a stated total size',
 'Tests try three strings; state cloning errors show only for particular repetition patterns.',
 [SA],[('extend / insert_node (state cloning)','suffix_automaton.py'),('mark_terminal_nodes','suffix_automaton.py')],['build + find_substring','all_suffixes'])
p('D01','A diff determines both documents',
 'Reading a diff and keeping the common text plus the inserted side of every change gives exactly the modified document; keeping the common text plus the deleted side gives exactly the original. No diff item is empty, and identical documents produce no change at all.',
 I,'every pair of documents (text, bytes, tokens), up to a stated total size',
 'Tests reconstruct from seven pairs; the recursion splits both documents at data-dependent places.',
 [CS],[('find_changeset recursion','changesets.py'),('as_diff_stream','changesets.py')],['gaspra.diff_token_sequences'])
p('D02','Changes in a diff are tight',
 'The two sides of one reported change never share a token, two changes are never adjacent, and a longest run common to both documents is always preserved as unchanged text (so at least that much of the original is reported as unchanged in one piece).',
 I,'every pair of documents, up to a stated total size',
 'No test looks at the quality of the split; a wrong split still reconstructs both documents.',
 [CS,SA],[('find_changeset recursion','changesets.py'),('find_lcs','suffix_automaton.py')],['gaspra.diff_token_sequences'])
p('D03','Patches rebuild the other document in both directions',
 'The forward patch of a change set applied to the original yields exactly the modified document, and the reverse patch applied to the modified document yields exactly the original, with the result of the same kind (text, bytes, tokens). Every copied range in a patch is non-empty, in range and strictly after the previous one.',
 I,'every pair of documents, up to a stated total size, for each kind of sequence',
 'Tests check the same seven pairs and never look at the ranges.',
 [CS,CM],[('strip_forward / strip_reverse','changesets.py'),('apply / join_changes','changesets.py')],['apply_forward','apply_reverse'])
p('M01','Merging with an unchanged or identical branch is exact',
 'If one branch equals the parent the merge is exactly the other branch, and if both branches are equal the merge is exactly that branch; in both cases there is no conflict and the result is one piece.',
 I,'every parent and branch, up to a stated total size',
 'Tests have ten such triples.',
 [MG,CS],[('process_fragments and helpers','merge.py')],['gaspra.merge_token_sequence'])
p('M02','Edits that do not touch each other merge cleanly',
 'Whenever the regions of the parent changed by one branch neither overlap nor abut the regions changed by the other, the merge has no conflict and is exactly the parent with both sets of edits applied.',
 I,'every parent and pair of branches whose edits are apart, up to a stated total size',
 'Only a few hand-made triples exist; the fragment queues are split at data-dependent points.',
 [MG,CS],[('_merge queue processing','merge.py'),('copy_copy / copy_change','merge.py')],['gaspra.merge_token_sequence'])
p('M03','A conflict-free merge contains both edits and nothing else',
 'When a merge reports no conflict, its text is the parent minus everything either branch deleted plus everything either branch inserted, each insertion at its own place; an insertion made identically by both appears once, and two different insertions are never made at the same place without a conflict being reported.',
 I,'every parent and pair of branches, up to a stated total size',
 'Losing or duplicating an edit silently needs particular overlaps that the sampled triples do not have.',
 [MG,CS],[('change_change / compose_changes','merge.py'),('consolidate_all','merge.py')],['gaspra.merge_token_sequence'])
p('M04','Conflict sides belong to the right branch',
 'In every conflict the first alternative consists only of text that the first branch contains, in that order, and the second only of text the second branch contains. Exchanging the two branches exchanges the two alternatives and changes nothing else about the text obtained by always taking one side.',
 I,'every parent and pair of branches, up to a stated total size',
 'Tests never swap branches, and check fixed outputs.',
 [MG],[('copy_change conflict output','merge.py'),('pending_conflict / flush_remaining','merge.py')],['gaspra.merge_token_sequence'])
p('M05','Merge output is in normal form',
 'A merge result is a non-empty list in which plain text and conflicts strictly alternate, no plain piece is empty unless it is the whole result, and the two alternatives of a conflict share no token (so they differ and are not both empty).',
 I,'every parent and pair of branches, up to a stated total size',
 'Two consolidation passes have to cooperate; tests only have examples.',
 [MG],[('consolidate_conflicts / consolidate_all','merge.py')],['gaspra.merge_token_sequence'])
p('M06','Merging is total and independent of the sequence kind',
 'Merging never fails, and merging the same content given as text, as bytes or as token tuples gives the same pieces and the same conflicts, each in the kind of the input.',
 I,'every parent and pair of branches, up to a stated total size, in every kind',
 'Tests only convert the hand-made triples to the other kinds.',
 [MG,CM,CS],[('get_joiner','common.py'),('empty fragments of the right kind','merge.py')],['gaspra.merge_token_sequence'])
p('M07','Resolving every conflict one way keeps that branch\'s insertions',
 'If all conflicts of a merge are resolved in favour of one branch, the resulting text contains everything that branch inserted into the parent, in order, and none of the parent text that both branches deleted reappears.',
 I,'every parent and pair of branches, up to a stated total size',
 'Silent loss of an edit next to a conflict is not visible in the fixed examples.',
 [MG],[('_merge queue processing','merge.py'),('split_change_fragment','merge.py')],['gaspra.merge_token_sequence'])
p('E01','Variable-length integers decode to what was encoded',
 'Every integer from 0 to 2^64-1 encodes to the SQLite4 variable-length form (1 to 9 bytes) and decodes to the same integer, leaving whatever bytes follow it untouched; a larger integer or a negative one is refused with an error.',
 I,'every integer (unbounded), any following bytes',
 'Tests try twenty values and no following bytes; the format has nine ranges.',
 [SE],[('vserialize_int / vdeserialize_int','serialize.py')],['vserialize_int','vdeserialize_int'])
p('E02','A stored patch reads back as the same patch',
 'Any sequence of non-empty byte pieces and non-empty copy ranges, of any lengths and offsets and in any order, is serialized to bytes that deserialize to exactly the same sequence.',
 I,'every sequence of up to a stated number of items with byte pieces of any length and ranges with any bounds below 2^64',
 'Tests use five short patches; length fields change size at 241, 2288, 67824, ... bytes.',
 [SE],[('bytes/slice alternation with fillers','serialize.py'),('variable-length integers','serialize.py')],['serialize_changeset','deserialize_changeset'])
p('E03','Damaged patches are never misread silently',
 'Decoding any byte string terminates, and either yields well-formed items or reports a premature end of stream; decoding a strict prefix of a serialized patch either reports a premature end or yields exactly a leading part of the original items.',
 I,'every byte string up to a stated length, and every truncation of a serialized patch',
 'No test decodes damaged input.',
 [SE],[('length checks','serialize.py')],['deserialize_changeset','vdeserialize_int'])
p('T01','Tokenizing and joining loses nothing',
 'For every tokenizer, decoding the encoding of a document returns the identical document of the same kind (text or bytes), and this stays true after the same tokenizer has encoded other documents.',
 ['inputs','histories'],'every sequence of up to a stated number of documents, of a stated length, over all Unicode characters (valid UTF-8 for the tokenizers that need it)',
 'Tests encode seven documents, one per tokenizer.',
 [TK],[('encode/decode of Null, Char, Line and Symbol tokenizers','tokenizers.py'),('generic_encode / generic_decode','tokenizers.py')],['Tokenizer.encode/decode'])
p('T02','Tokens mean the same piece of text in every document',
 'Within one tokenizer, two tokens are equal exactly when the pieces of text they stand for are equal, whichever documents they came from, and decoding any selection of tokens gives the concatenation of their pieces. Line tokens are whole lines, and word tokens are either one maximal run of word characters or one other character.',
 ['inputs','histories'],'every pair of documents up to a stated length',
 'Tests never encode two documents with the same tokenizer, which is how the tools use them.',
 [TK],[('shared encoding table','tokenizers.py'),('SYMBOLS pattern','tokenizers.py')],['Tokenizer.encode/decode'])
p('T03','High-level diff and merge reconstruct the text for any tokenizer and call order',
 'The high-level diff under any tokenizer describes exactly the two given documents as text (or bytes), and the high-level merge with an unchanged branch gives the other branch. One call never affects the result of another, whatever kinds of documents the calls are given.',
 ['inputs','histories'],'every pair/triple of documents up to a stated length, every tokenizer, every sequence of two calls of mixed kinds',
 'No test calls the high-level functions.',
 [TK,CS,MG],[('diff / merged / decode_changes','tokenizers.py')],['tokenizers.diff','tokenizers.merged'])
p('V01','Every stored version reads back byte for byte',
 'After any history of added versions, each one based on nothing or on a version that is then a head, every version ever added reads back exactly as it was stored, under every tokenizer the store can be configured with; tags never added read back as absent.',
 ['histories','inputs','configurations'],'every history up to a stated number of adds with arbitrary base choices, contents up to a stated size',
 'Tests store one chain of six texts; deltas are re-based on every add.',
 [VE,SE,CS,MT],[('add / _add_edge','versions.py'),('_retrieve_using_path','versions.py')],['Versions.get'],
 [('head_version','full text of heads','versions.py'),('diffs','delta from tree parent','versions.py'),('tree','spanning forest','versions.py')])
p('V02','Version metadata is right throughout a history',
 'A tag is reported as present exactly when it has been added; its reported base version is the one it was added with; a head reports its full length and no changes, and every other version reports the number of pieces and literal bytes of its stored delta. A tag never added has no information.',
 ['histories'],'every history up to a stated number of adds with arbitrary base choices',
 'Tests follow one chain.',
 [VE,MT],[('version_info','versions.py'),('base_version','memory_tree.py')],['Versions.version_info','Versions.__contains__'])
p('V03','Only heads are stored in full and retrieval paths stay short',
 'After any history exactly the versions that no later version was based on are stored in full and every other version is stored as one delta; the number of deltas applied to read any version grows far slower than the history (for a chain of n versions at most twice the square root of n, less one) and depends on the shape of the history alone, not on what the tags or contents are.',
 ['histories'],'every history up to a stated number of adds',
 'Tests check one chain and only token counts.',
 [VE,MT],[('get_split re-basing','memory_tree.py'),('_add_edge','versions.py')],['Versions.version_info','Versions.tree.path_to'])
p('V04','A database-backed store behaves like an in-memory one',
 'A version store whose tree, full texts and deltas live in the database answers every query (contents, presence, base, version information) exactly as an in-memory store given the same history.',
 ['histories','configurations'],'every history up to a stated number of adds, contents up to a stated size',
 'No test stores versions in the database.',
 [VE,DC,DT,DS],[('DBCollection as a mutable mapping','db_collections.py'),('DBTree','db_tree.py')],['Versions(head_version=DBCollection, diffs=DBCollection, tree=DBTree)'])
p('R01','The version tree keeps true paths and true heights',
 'After any sequence of additions and re-parentings that create no cycle, the path to a tag is the chain of its current parents from its root, and each tag\'s base version is unchanged; the split point of a tree lies on a longest downward path, halfway down (at half the height, rounded down), and is returned with the path leading to it.',
 ['histories'],'one operation from every valid tree of a stated size, and every operation sequence up to a stated length',
 'Tests follow one fixed insertion order.',
 [MT],[('change_parent / _update_metrics','memory_tree.py'),('get_split','memory_tree.py')],['MemoryTree.path_to','MemoryTree.get_split'])
p('R02','The database tree and the in-memory tree agree',
 'Driven by the same history of version additions (with the re-parenting a version store performs), the database tree and the in-memory tree report the same membership, base versions, paths and split points of every tag added, at every step.',
 ['histories'],'every history up to a stated number of adds with arbitrary base choices',
 'Tests run the same single chain on both.',
 [DT,DS,MT],[('SQL statements','db_tree_sql.py'),('change_parent / get_split','db_tree.py')],['DBTree','MemoryTree'])
p('R03','The database collection is a dictionary',
 'Under any sequence of stores, overwrites, deletions, lookups and iterations, the database collection answers exactly as a dictionary from text tags to bytes would: same values, same length, same membership, same set of keys, and a missing-key error exactly when the tag is absent. Two collections in one database do not affect each other.',
 ['histories','inputs'],'every operation sequence up to a stated length with arbitrary tags and contents',
 'Tests exercise each operation once on fixed tags.',
 [DC],[('INSERT ... ON CONFLICT, SELECT, DELETE statements','db_collections.py')],['DBCollection'])
p('F01','Every manifest and every file version stays retrievable',
 'After any linear history of manifests in which files are added, changed, removed, renamed or kept (every file version having its own tag; names and tags are any text, names of undecodable files included), each manifest reads back exactly, each file version reads back exactly, and a file\'s base version is the version the same file had in the base manifest (none for a new file).',
 ['histories','inputs'],'every linear history up to a stated number of manifests over a stated set of names',
 'Tests have one history in which no file is added or removed.',
 [MF,VE],[('add_manifest','manifest.py'),('manifest_to_doc / doc_to_manifest','manifest.py')],['add_manifest','get_manifest'])
p('L01','A line-oriented diff consists of whole lines of both documents',
 'Turning a diff or merge result (of any tokenization) into a line diff keeps the text: taking the new side everywhere gives the new document and the old side the old document, each exactly or with one newline added at the very end. Every piece of it, and each side of every change, is empty or ends at a line end, and in the consolidated form two changes are never adjacent.',
 I,'every pair of documents up to a stated length, every result in which plain pieces and changes alternate',
 'There is no test of the line diff at all.',
 [DL],[('DiffAccumulator','diff_to_lines.py'),('handle_fragment / consolidate','diff_to_lines.py')],['consolidated_line_diff','to_line_diff'])
p('U01','Markup adds markers and nothing else',
 'Rendering a diff or merge emits, in order, each common piece unchanged and for each change the new side between its markers, the separator, and the old side between its markers, with only the text passed through the escape function; nested changes are rendered the same way inside their side, and no text is lost, repeated or reordered.',
 I,'every stream of up to a stated number of plain and changed pieces with arbitrary texts, nested one level',
 'Tests have eight streams.',
 [MK],[('markup_stream / markup_change_item','markup.py')],['markup_changes'])
p('U02','Git-style output has well-formed conflict blocks',
 'In the git-compatible style, every change is shown as a complete block: an opening marker line with the new name, the new lines, a separator line, the old lines and a closing marker line with the old name, every marker starting at the beginning of a line; removing the markers and one side leaves the other document (up to one final newline).',
 I,'every pair of documents up to a stated length',
 'No test runs the git-compatible style.',
 [MK,DL,MTl],[('GIT_MARKUP_LEVEL0','markup.py'),('consolidated_line_diff','diff_to_lines.py')],['gaspra-diff -g','gaspra-merge -g'])
p('U03','Every option combination of the command-line tools works',
 'The diff and merge commands complete without error for every combination of their options and any documents, for every tokenization, and running one does not change what a later run in the same process prints; a merge in which only one branch changed writes exactly that branch\'s text (up to one final newline in line mode).',
 ['configurations','inputs'],'every combination of the documented flags, documents up to a stated length',
 'No test runs the command-line tools.',
 [MTl,MK],[('get_markup_style','merge_tool.py'),('show_header','markup.py'),('_merge / diff_cli','merge_tool.py')],['gaspra-diff','gaspra-merge'])
p('U04','Console output shows the document text literally',
 'Whatever characters the documents contain (brackets, backslashes, anything resembling console markup), the text shown on the console with the colours ignored is exactly the document text; file names in markers and headers are shown literally as well. (Control characters other than newline are outside this statement.)',
 I,'every text up to a stated length in every position the tools print it, and every file name up to a stated length',
 'No test prints to the console.',
 [MK],[('rich_escape','markup.py'),('console_writer','markup.py')],['gaspra-diff to a console'])
p('U05','Any file can be read, and text files read faithfully',
 'Reading input files never fails on account of their bytes: a valid UTF-8 file reads as the text it encodes, any other file reads with one character per byte (line ends of any convention read as newlines in both), and the choice is made for each file on its own.',
 I,'every tuple of up to a stated number of files of a stated number of bytes',
 'No test reads a file.',
 [MTl],[('get_text','merge_tool.py')],['get_text'])
p('S05','The search automaton is the smallest one and linear in size',
 'The automaton built for a sequence has exactly as many states as the sequence has classes of parts with the same end positions (the fewest possible), hence at most 2n-1 states and 3n-4 transitions for n tokens (n > 2), whatever the tokens.',
 I,'every sequence over any alphabet, up to a stated length',
 'Tests never look at the number of states; redundant states cost only time and memory.',
 [SA],[('extend / insert_node (state cloning)','suffix_automaton.py')],['build'])
p('D04','A change set tiles both documents and all its forms agree',
 'The common ranges and changes of a change set follow one another without gap or overlap from the beginning to the end of both documents; every common range names equal text in both, every change holds exactly the parts of the two documents between the ranges around it, and the stream of changes, the stream of diff items and the patched documents obtained from the change set itself all describe the same change.',
 I,'every pair of documents, up to a stated total size, for each kind of sequence',
 'Tests look at reconstructed documents only.',
 [CS],[('find_changeset slices','changesets.py'),('as_change_stream / as_diff_stream','changesets.py')],['find_changeset(...).as_change_stream','find_changeset(...).as_diff_stream'])
p('M08','Conflicts are about changes only',
 'Parent text that both branches kept (according to their diffs against the parent) always appears outside of conflicts, completely and in order.',
 I,'every parent and pair of branches, up to a stated total size',
 'A merge that pulls kept text into both sides of a conflict still reads correctly whichever side is taken.',
 [MG],[('consolidate_conflicts','merge.py'),('_merge / within_conflict','merge.py')],['gaspra.merge_token_sequence'])
p('T04','Diffs and merges by lines or words compare exactly those pieces',
 'The high-level diff or merge of documents under a tokenizer is the diff or merge of the sequences of their pieces (lines with their line end, the text after the last line end being the last piece; runs of word characters and single other characters; characters; the document itself), each piece and each side of a change joined back to text: it never cuts a piece and never depends on how pieces are numbered.',
 ['inputs','configurations'],'every pair/triple of documents up to a stated length, every tokenizer, text and bytes',
 'Tests compare a few results with fixed expectations.',
 [TK,CS,MG],[('generic_encode numbering','tokenizers.py'),('decode_changes','tokenizers.py')],['tokenizers.diff','tokenizers.merged'])
p('V05','A stored delta repeats nothing of a longest common run',
 'In a byte-wise store the delta of a version holds at most as many literal bytes as the version has besides a longest run of bytes it shares with the version its delta builds on; in particular a version equal to that one costs no literal byte.',
 ['histories','inputs'],'every history up to a stated number of adds, contents up to a stated size',
 'Tests add up the sizes of one chain.',
 [VE,CS,SE],[('_make_changeset','versions.py'),('strip_forward','changesets.py')],['Versions.version_info'],
 [('diffs','delta from tree parent','versions.py')])
p('L02','Lines without a change are shown as unchanged',
 'In the consolidated line diff of a diff or merge result, every whole line that lies within one plain piece of that result (other than a piece of white space alone) is part of a plain piece again, at the same place in both documents.',
 I,'every pair of documents up to a stated length, every result in which plain pieces and changes alternate',
 'There is no test of the line diff at all; a line diff that marks too much still has both documents in it.',
 [DL],[('handle_fragment / finish_conflict','diff_to_lines.py'),('consolidate','diff_to_lines.py')],['consolidated_line_diff'])
p('U06','The tools write exactly the result of the diff or merge asked for',
 'What the diff and merge tools write is the diff or merge of the documents under the tokenization asked for (characters unless words or lines are chosen), turned into whole lines exactly if lines are to be shown or the git-compatible style is chosen, every piece in the markers of the chosen style and nothing else; with -d the merge follows the diffs of both branches, each under a header. The output file holds the same as the console would show, except for the marks that stand for colours.',
 ['configurations','inputs'],'every combination of the documented flags, documents up to a stated length',
 'No test runs the command-line tools.',
 [MTl,MK,TK,DL],[('get_markup_style','merge_tool.py'),('_merge / diff_cli','merge_tool.py'),('make_tokenizer','merge_tool.py')],['gaspra-diff','gaspra-merge'])
p('M09','Exchanging the branches exchanges the sides',
 'Merging the same two branches in the other order conflicts exactly if it does in the first order; without a conflict the merged text is the same, and in general the document read with one branch\'s side of every conflict is the same in both orders.',
 I,'every parent and pair of branches, up to a stated total size',
 'No test merges in both orders.',
 [MG],[('process_fragments / compose_changes','merge.py'),('flush_remaining','merge.py')],['gaspra.merge_token_sequence'])
p('D05','The kind of sequence makes no difference to comparing',
 'Text, bytes, tuples and lists whose elements are equal at the same places have the same longest common run, occurrences, diff and patches (the pieces being of the respective kind), and comparing leaves lists as they were.',
 I,'every pair of sequences up to a stated total size',
 'Tests use text nearly everywhere.',
 [SA,CS],[('find_changeset','changesets.py'),('find_lcs','suffix_automaton.py')],['find_lcs','diff_token_sequences','strip_forward'])
p('T05','A tokenizer never mixes text and bytes',
 'A tokenizer that has taken a text refuses bytes and the other way round, with the error announced and without harm: documents encoded before and after the refusal decode to themselves; further documents of the same kind are taken.',
 ['inputs','histories'],'every triple of documents up to a stated length, every tokenizer',
 'Tests refuse one fixed pair.',
 [TK],[('source_type','tokenizers.py')],['Tokenizer.encode'])
p('T06','Numbering the lines of several texts together loses nothing',
 'line_encode_strings gives for any number of texts a table of different lines, each of them used, and for each text the sequence of the numbers of its lines: joining the named lines with newlines gives every text back, and equal lines of different texts have the same number.',
 I,'every tuple of texts up to a stated length',
 'Tests encode single fixed texts.',
 [TK],[('line_encode_strings','tokenizers.py')],['line_encode_strings'])
p('V06','An addition touches nothing but its own chain',
 'Adding a version stores it in full as it is, replaces the full copy of the version it is based on by a delta, rewrites at most one other delta and leaves everything else that is stored (all other deltas and heads) as it was.',
 ['histories'],'every history up to a stated number of adds, contents up to a stated size',
 'Tests read versions back; a store that rewrites everything on each addition passes them.',
 [VE],[('add / _add_edge','versions.py')],['Versions.add'],
 [('diffs','at most one rewritten','versions.py')])
p('U07','The tools touch no file but the output file',
 'A run leaves its input files as they were and creates, removes or writes no file except the output file asked for; what it writes there is the same whatever the output file contained before, even if it is one of the inputs.',
 ['configurations','inputs'],'every combination of the documented flags, every choice of an output file (new, existing, one of the inputs), documents up to a stated length',
 'No test runs the command-line tools.',
 [MTl,MK],[('get_text before get_writer','merge_tool.py'),('file_writer','markup.py')],['gaspra-diff -o','gaspra-merge -o'])
p('E04','Fixed-length integers decode to what was encoded',
 'Every integer from 0 to 2^32-1 is encoded in exactly four bytes, highest first, and decodes to itself with the bytes that follow left as they are; an integer out of that range and a string of fewer than four bytes are refused.',
 I,'every integer, every byte string up to a stated length',
 'No test covers these functions.',
 [SE],[('serialize_int / deserialize_int','serialize.py')],['serialize_int','deserialize_int'])
p('T07','Transformations and line views of decoded results',
 'A transformation given to a merge or to the decoding of a change stream is applied exactly once to every piece of the result (each side of a change separately) and to nothing else, and otherwise the result is as without it; the line view of a token stream is the line view of the text it decodes to.',
 I,'every document tuple up to a stated length, every tokenizer, merges and diffs',
 'No test passes a transformation or asks for the line view of tokens.',
 [TK,DL],[('decode_changes / merged','tokenizers.py'),('decode_and_line_diff_changes','tokenizers.py')],['merged(transformer=...)','decode_and_line_diff_changes'])
p('V07','A failed addition harms no version',
 'If adding a version or a manifest fails (contents the tokenizer cannot take, a base that was never added or is no longer a head, a manifest naming a version without contents), every version and manifest added before stays present with the same contents, base and way of being stored, further versions can be added to the heads there are, and a manifest refused for missing contents can be added when they are given.',
 ['histories','fault_sequences'],'every history up to a stated number of adds followed by every kind of failing addition, in memory and in the database',
 'No test looks at the store after a failed addition.',
 [VE,MF,DT,DC],[('order of storing in add','versions.py'),('_add_edge','versions.py'),('add_manifest','manifest.py')],['Versions.add','add_manifest'])
p('C01','Results that are read lazily do not influence one another',
 'Diffs, merges, line diffs, change streams, patches being read back, occurrences and suffixes are the same whether they are read in one go or step by step in any interleaving with another one (of the same kind or another, over the same or other documents, with a shared tokenizer or not), also if that other one is given up half way.',
 ['schedules','inputs'],'every order of steps of two results, documents up to a stated length',
 'Tests read each result completely before they ask for another.',
 [CS,MG,TK,DL,SE,SA],[('generators','changesets.py, merge.py, diff_to_lines.py, serialize.py, suffix_automaton.py'),('DiffAccumulator','diff_to_lines.py')],['the iterators returned'])
p('U08','The torture tool merges the files of its test',
 'For a test name the torture tool writes what the merge tool, with the same options, writes for that test\'s parent, second and first file (the first being merged into), under the names of those files.',
 ['configurations','inputs'],'every combination of the documented flags, several test names, documents up to a stated length',
 'No test runs the command-line tools.',
 [MTl,'src/gaspra/torture_test.py'],[('get_filenames','torture_test.py'),('torture_cli','merge_tool.py')],['gaspra-torture'])
p('U09','A run that cannot read its inputs changes nothing',
 'If one of its input files cannot be read a run fails, and all files, the output file included, are as they were before (an output file that did not exist is not created).',
 ['configurations','fault_sequences'],'every combination of the documented flags, any one input missing, output file new, existing or none',
 'No test runs the command-line tools.',
 [MTl,MK],[('get_text before get_writer','merge_tool.py')],['gaspra-diff','gaspra-merge','gaspra-torture'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
