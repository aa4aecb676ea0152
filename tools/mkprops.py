#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

prop("C01","Loading never panics: every input gives a motion or an error",
 "Loading any sequence of bytes, from any reader, returns either a loaded motion or an error: it never panics, never overflows an arithmetic operation, and never tries to allocate memory for a count or size that the file merely claims. When the reader itself fails, loading returns that I/O error and not a motion.",
 ["inputs","fault_sequences"],"for every byte sequence (any keyword order, missing or extra braces and tokens, any numbers including huge, negative, non-finite and malformed ones, any encoding), and a reader which fails at any point",
 "The tests load four well-formed files; none is malformed, none claims absurd counts, and no reader fails.",
 ["src/parse.rs","src/lib.rs"],[("hierarchy parser","src/parse.rs: Bvh::read_joints"),("motion parser","src/parse.rs: Bvh::read_motion"),("line source","src/lib.rs: CachedEnumerate, EnumeratedLines::next_non_empty_line, Bvh::from_reader")],
 observe=["result of Bvh::from_reader / from_bytes / from_str"])
prop("C02","A loaded skeleton is a well-formed tree that matches the nesting",
 "Whenever loading succeeds, the joints form one tree listed in the order in which the file declares them: the first joint is the only root, every joint's index is its position in the list, and every other joint has a parent which comes before it. The parent of a joint is the joint whose braces directly enclose its declaration in the file, whatever the shape of the tree and with or without End Sites.",
 ["inputs"],"for every file which loads: any number of joints, any depth, any branching, leaves with and without End Site, joints with both an End Site and children",
 "The tests check two fixed skeletons in which every leaf has an End Site; parent links and odd shapes are never checked.",
 ["src/parse.rs","src/joint.rs"],[("depth and parent assignment","src/parse.rs: Bvh::read_joints, get_parent_index"),("joint data","src/joint.rs: JointData, JointPrivateData")],
 state=[dict(name="joints",meaning="the skeleton as a list in declaration order",where="src/lib.rs: Bvh::joints"),dict(name="depth / parent index / self index",meaning="position of a joint in the tree",where="src/joint.rs: JointPrivateData")],
 observe=["Bvh::joints, Joint::index, Joint::parent_index, Joint::is_root"])
prop("C03","Every loaded joint carries exactly what the file says about it",
 "For every well-formed file each joint is loaded exactly once, with the name on its ROOT or JOINT line byte for byte, the offset on its own OFFSET line (three numbers, as the nearest f32 values, in the order X Y Z), the channel types of its own CHANNELS line in the listed order, and an End Site exactly when its body contains one, with that End Site's offset. Nothing which belongs to one joint, or to its End Site, ever appears on another joint or as another attribute.",
 ["inputs"],"for every well-formed hierarchy: any names (any bytes but whitespace and colon), any numbers, any number and order of channels, OFFSET before or after CHANNELS, End Sites on any joint including the root, blank lines and any indentation or line ending",
 "The tests compare a handful of joints of fixed files; no root with an End Site, no leaf without one, no unusual name or order of lines.",
 ["src/parse.rs","src/joint.rs"],[("token dispatch","src/parse.rs: Bvh::read_joints"),("attribute setters","src/joint.rs: JointData::set_name, set_offset, set_channels")],
 observe=["Joint::name, offset, channels, end_site, has_end_site"])
prop("C04","Channels are numbered consecutively from 0 over the whole skeleton",
 "In every loaded or literal-built motion, listing the channels of all joints in order gives the motion indices 0, 1, 2, ... without gap or repetition, and the reported number of channels is how many there are. So every channel addresses its own column of every frame, and every column belongs to exactly one channel.",
 ["inputs","programs"],"for every file which loads and every bvh! literal, with any number of joints and any number of channels per joint, including none",
 "The tests look at a few channels of two fixed skeletons.",
 ["src/parse.rs","src/macros.rs","src/lib.rs"],[("channel counter of the parser","src/parse.rs: Bvh::read_joints (curr_channel)"),("channel counter of the builder","src/macros.rs: BvhLiteralBuilder::push_channel, set_num_channels")],
 observe=["Joint::channels, Channel::motion_index, Bvh::num_channels"])
prop("C05","The motion section is loaded value for value, or rejected",
 "Loading succeeds only if the number of motion values in the file is the number of channels times the number of frames it announces; otherwise the result is an error. On success the frames hold the values of the file in file order, each as the nearest f32, and the frame time is the announced number of seconds to the nearest nanosecond.",
 ["inputs"],"for every motion section: any number of frames and channels (also 0), any numbers, any layout of the values over lines, values missing or left over, announced counts up to the largest integer",
 "The tests load fixed files with matching counts; no count mismatch, no extreme value, no re-flowed rows.",
 ["src/parse.rs","src/lib.rs"],[("motion parser","src/parse.rs: Bvh::read_motion")],
 observe=["Bvh::frames, Bvh::frame_time, LoadMotionError::MotionCountMismatch"])
prop("C06","Load errors name what is wrong and the line where it is",
 "When a file which is well-formed up to some line has one defect on that line - a malformed or missing number, axis, joint name, channel name, section header or motion value, or a section or keyword in the wrong place - loading returns the error kind for that defect, and its line is the number of that line, counted from 0 over all lines including blank ones. The details in the error (axis, position in the row, offending channel name, expected and actual counts) are those of the defect.",
 ["inputs"],"for every well-formed file, every line of it and every kind of defect on that line, with any number of blank lines anywhere",
 "No test loads a file with an error in it.",
 ["src/parse.rs","src/errors.rs","src/lib.rs"],[("line numbering","src/lib.rs: CachedEnumerate, EnumeratedLines::next_non_empty_line"),("error construction","src/parse.rs: Bvh::read_joints, Bvh::read_motion"),("error accessors","src/errors.rs: LoadError::line, LoadJointsError::line, LoadMotionError::line")],
 observe=["LoadError::kind, LoadError::line"])
prop("C07","Frame iteration cuts the motion data into its frames, in order",
 "Iterating over the frames, shared or mutable, yields exactly as many frames as there are whole rows of motion values, the k-th holding values k*channels to (k+1)*channels-1, and yields nothing when there are no channels. The reported length and size hint are always the exact number of frames still to come, however calls from the front and the back are interleaved, and each frame is yielded exactly once; extracting the frames returns all motion values and leaves none.",
 ["inputs","histories"],"for every motion with any number of channels and frames, and every interleaving of next, next_back, nth, len and size_hint",
 "The tests iterate forwards over two fixed motions.",
 ["src/frame_iter.rs","src/lib.rs"],[("frame iterators","src/frame_iter.rs: Frames, FramesMut"),("construction","src/lib.rs: Bvh::frames, frames_mut, extract_frames, num_frames")],
 observe=["Bvh::frames, frames_mut, num_frames, extract_frames"])
prop("C08","Inserting frames is list insertion at the cursor",
 "Inserting a frame of the right size at a cursor puts it exactly at the cursor's position, keeps every other frame unchanged and in order, and moves the cursor just behind it; a frame of any other size is refused and changes nothing. Inserting several frames gives the same result as inserting them one by one, up to the first one refused.",
 ["inputs","histories"],"for every motion, cursor position, frame contents and sequence of frames, through any history of earlier edits",
 "The tests insert at the end only, and the helper's test only slices exactly as long as the list.",
 ["src/frame_cursor.rs"],[("insertion","src/frame_cursor.rs: FrameCursor::try_insert_frame, try_insert_frames"),("slice insertion","src/frame_cursor.rs: vec_insert_slice")],
 state=[dict(name="index",meaning="cursor position between frames",where="src/frame_cursor.rs: FrameCursor::index")],
 observe=["Bvh::frames after the edit, FrameCursor::index, FrameInsertError"])
prop("C09","Removing frames is list removal at the cursor",
 "Removing a frame deletes exactly the frame next to the cursor, keeps every other frame unchanged and in order, and leaves the cursor where it is; when there is no frame next to the cursor the result is an error and nothing changes. Removing all frames leaves no frame and the cursor at 0, ready for insertion.",
 ["inputs","histories"],"for every motion, cursor position and history of earlier edits",
 "The tests remove the first of three frames, once.",
 ["src/frame_cursor.rs"],[("removal","src/frame_cursor.rs: FrameCursor::remove_frame, remove_all_frames")],
 observe=["Bvh::frames after the edit, FrameCursor::index, FrameRemoveError"])
prop("C10","A frame cursor always points into its motion and sees its neighbours",
 "Under every sequence of cursor operations the cursor's position stays between 0 and the number of frames, each movement goes exactly where it says (one forward, one back, first, last) and stops at the ends, and movements change no frame. Peeking shows exactly the frame before or after the position, or none at the ends, and turning the cursor into an iterator yields exactly the frames from its position on.",
 ["inputs","histories"],"for every motion and every sequence of movements, edits and peeks",
 "The tests move to the end once; no sequence of operations, no peeking.",
 ["src/frame_cursor.rs"],[("navigation","src/frame_cursor.rs: FrameCursor::move_next, move_prev, move_first, move_last"),("peeking","src/frame_cursor.rs: FrameCursor::peek_next, peek_prev, peek_next_mut, peek_prev_mut, surrounding_frames"),("iteration from the cursor","src/frame_cursor.rs: FrameCursor::into_frames, into_frames_mut")],
 observe=["FrameCursor::index, len, peek_*, into_frames"])
prop("C11","Frame values are read and set exactly where addressed",
 "Reading a frame through a channel or an index gives the value in that column, and reading through a range gives those columns; an address outside the frame gives none, or an out-of-bounds error when setting. Setting a value returns the previous one and changes that value and no other.",
 ["inputs"],"for every frame, channel, index, range and value",
 "No test reads a frame through a channel or sets a value.",
 ["src/frame_iter.rs","src/lib.rs"],[("access","src/frame_iter.rs: Frame::get, FrameMut::get, get_mut, try_set_motion, Index, IndexMut"),("channel as index","src/frame_iter.rs: FrameIndex::to_slice_index")],
 observe=["Frame::get, Index, FrameMut::try_set_motion, Bvh::frames afterwards"])
prop("C12","Channel names, kinds and axes are consistent",
 "The six channel names map one to one to the six channel types: parsing a channel type's text gives that type back, and every other byte string is refused with exactly that string in the error. Each type is either a rotation or a position, never both, and its kind, axis and unit vector are those spelled in its name.",
 ["inputs"],"for every byte string and every channel type",
 "The tests parse a few of the names; nothing tests rejections of near-misses or all kinds and axes.",
 ["src/lib.rs","src/errors.rs"],[("parsing","src/lib.rs: ChannelType::from_bytes and its TryFrom / FromStr forms"),("naming and classification","src/lib.rs: ChannelType::as_str, is_rotation, is_position, axis, Axis::vector")],
 observe=["ChannelType and Axis methods, ParseChannelError::into_inner"])
prop("C13","Joint traversal visits the skeleton exactly",
 "Iterating over the joints, shared or mutable, yields every joint exactly once in order, and the root joint is the first or none when there are none. The children of a joint are exactly the joints whose parent it is, in order, none for a leaf; looking up a parent and looking up a name give the joint concerned, the first of that name, or none.",
 ["inputs"],"for every skeleton, joint and name",
 "The tests iterate over the joints of fixed skeletons; children, parents, lookup by name and mutable iteration are untested.",
 ["src/joint.rs","src/lib.rs"],[("iterators","src/joint.rs: Joints, JointsMut, Joints::iter_children, find_by_name"),("links","src/joint.rs: Joint::parent, children, parent_index"),("entry points","src/lib.rs: Bvh::root_joint, joints, joints_mut")],
 observe=["Bvh::joints, joints_mut, root_joint, Joint::children, Joint::parent, Joints::find_by_name"])
prop("C14","Written text is a complete, well-formed BVH file",
 "The text written for any skeleton with a root is a BVH file: the hierarchy with every joint in order, each with its own name, offset, channels and End Site if it has one, braces opened and closed so that they enclose exactly the joint's descendants, and every line indented by its depth. It is followed by the motion section, announcing the actual number of frames and the frame time and giving one line per frame with one value per channel, and every line ends with the chosen terminator.",
 ["inputs","configurations"],"for every motion obtained by loading, by the bvh! literal or by editing - any tree shape, with or without End Sites, any values - and all write options (precisions up to 65535, which is as far as the standard formatter goes; indentation that fits into memory)",
 "The tests write skeletons in which every leaf has an End Site, with the default options.",
 ["src/write.rs"],[("text generation","src/write.rs: WriteOptions::next_chunk"),("indentation and terminators","src/write.rs: IndentStyle::prefix_chars, LineTerminator")],
 observe=["Bvh::to_string, WriteOptions::write_to_string"])
prop("C15","Writing a motion and loading the text gives the same motion",
 "With default number formatting, loading the text written for any motion that was loaded, literal-built or edited gives an equal motion: same joints, names, offsets, End Sites, channels, tree, frame time and frames, bit for bit except that a NaN stays some NaN. This holds for every indentation style and line terminator, and with limited precision everything but the rounded numbers is still the same.",
 ["inputs","configurations"],"for every motion obtained by loading, by the bvh! literal or by editing, with at least a root joint and with names and frame times a file can express, and all write options (precisions up to 65535)",
 "One test reloads one written skeleton of a simple shape, with default options and simple numbers.",
 ["src/write.rs","src/parse.rs"],[("writer","src/write.rs: WriteOptions::next_chunk"),("parser","src/parse.rs: Bvh::read_joints, read_motion")],
 observe=["Bvh::to_string then Bvh::from_bytes"])
prop("C16","Writing delivers exactly the text to any sink, or reports the error",
 "Writing to a sink delivers exactly the bytes of the in-memory text, in order and each once, even if the sink accepts only part of what it is offered or is interrupted, and then flushes the sink. If the sink fails, writing returns that error, what was delivered is a prefix of the text, and success is never reported unless everything was delivered and flushed.",
 ["inputs","fault_sequences"],"for every motion and write options, and every sink behaviour: short writes, interruptions, errors at any call, errors on flush",
 "The tests write to a growing vector only, which never writes short or fails.",
 ["src/write.rs","src/lib.rs"],[("delivery","src/write.rs: WriteOptions::write, write_to_string"),("entry points","src/lib.rs: Bvh::write_to, to_string")],
 observe=["bytes received by the io::Write, result of WriteOptions::write"])
prop("C17","A bvh! literal is the same motion as its text loaded as a file",
 "Building a motion with the bvh! literal gives the same motion as loading the same text as a file: same joints, names, tree, offsets, End Sites, channels, frame time and frames. This holds for every supported number of channels per joint (0 to 9) and every nesting.",
 ["programs"],"for every literal in the macro's grammar",
 "The tests use a few literals with 3 and 6 channels and compare only some attributes.",
 ["src/macros.rs"],[("expansion","src/macros.rs: bvh!, parse_joints_internal!, match_channels!, parse_offset!"),("builder","src/macros.rs: BvhLiteralBuilder")],
 observe=["the Bvh built by bvh!, compared with Bvh::from_str of the same text"])
prop("C18","Loading depends only on the bytes, not on how they are supplied",
 "All ways to load - from a reader, a byte slice, a string, and the conversion traits - give the same result for the same bytes. A reader may deliver the bytes in pieces of any size and be interrupted at any point without changing the result.",
 ["inputs","schedules"],"for every byte sequence and every way of splitting it into reads, including interruptions",
 "The tests load from whole in-memory buffers and one file; reads are never small or interrupted.",
 ["src/lib.rs"],[("entry points","src/lib.rs: from_reader, from_bytes, from_str, Bvh::from_reader, Bvh::from_bytes, FromStr and TryFrom impls")],
 observe=["results of the loading functions"])
prop("C19","Write options change exactly what they name",
 "Each option setter changes only its own option, and each option changes only its own aspect of the text: indentation only leading blanks, the line terminator only line ends, and the three precision options only the digits of offsets, of the frame time, and of motion values respectively. A precision of n writes every such number rounded to n decimal places, and no precision writes just as many digits as are needed to read back the same number.",
 ["inputs","configurations"],"for every motion, every combination of options (precisions up to 65535, indentation that fits into memory) and every order of setting them",
 "The tests use the default options or check a single combination.",
 ["src/write.rs"],[("setters","src/write.rs: WriteOptions::with_*, IndentStyle::with_spaces"),("use of the options","src/write.rs: WriteOptions::next_chunk, IndentStyle::prefix_chars, LineTerminator::as_str")],
 observe=["WriteOptions fields, WriteOptions::write_to_string"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
