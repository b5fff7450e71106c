#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
H='source/data_model/hdf5/source/'; HI='source/data_model/hdf5/include/lue/hdf5/'
C='source/data_model/cxx/source/'; CI='source/data_model/cxx/include/lue/'
L='source/data_model/hl/source/'; G='source/data_model/gdal/source/'; Q='source/quality_assurance/cxx/'
PY='source/data_model/python/source/'; FW='source/framework/'
P=[]
def p(id,title,stmt,over,qtext,tests,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=tests,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('D01','Property values read back exactly as written',
  'A value written for an object, a location in time or a range of either, through any of the six kinds of property, is read back unchanged by every later read that addresses it, in the same session and after closing and reopening the dataset, until it is overwritten. A write changes only the elements it addresses: no other element, object, location in time, property or property set changes.',
  ['inputs','histories','fault_sequences'],'all value types, ranks, shapes and addressing forms of the six property kinds; all histories of interleaved writes, reads, growth, close and reopen; all cache and I/O-size settings of the storage library; transient interruptions and short transfers of the storage calls',
  'The value tests write one value per kind once, with whole-collection reads, and never reopen with other data interleaved.',
  [C+'array/same_shape/value.cpp',C+'array/same_shape/constant_shape/value.cpp',C+'array/same_shape/variable_shape/value.cpp',C+'array/different_shape/value.cpp',C+'array/different_shape/constant_shape/value.cpp',C+'array/different_shape/variable_shape/value.cpp',C+'core/array.cpp',H+'dataset.cpp',H+'hyperslab.cpp'],
  [('hyperslab addressing of object arrays',C+'array/same_shape/value.cpp'),('value group per object or location in time',C+'array/value_group.cpp'),('selection and transfer',H+'dataset.cpp')],
  ['read through the property value after every step and after reopen'])
p('D02','Growing a property keeps stored values and exact counts',
  'Making room for more objects or locations in time leaves every value already stored unchanged, and from then on the reported number of arrays, objects and locations in time, ranks and array shapes are exactly those requested, in the same session and after reopening. Elements never written read back as the no-data value the array was created with, or as zero when there is none.',
  ['inputs','histories','fault_sequences'],'all growth sequences over the six property kinds (single and multiple objects, empty requests, zero-sized arrays, any id values) mixed with writes and reopen, and growth requests that fail because storage fails',
  'Tests grow each value once from empty and compare the counts in the same session; the stored counters and the ones kept in memory are never compared after a failure.',
  [C+'array/same_shape/value.cpp',C+'array/same_shape/constant_shape/value.cpp',C+'array/same_shape/variable_shape/value.cpp',C+'array/different_shape/value.cpp',C+'array/different_shape/constant_shape/value.cpp',C+'array/different_shape/variable_shape/value.cpp',H+'dataset.cpp',H+'chunk.cpp'],
  [('resize of the leading dimension',C+'array/same_shape/value.cpp'),('counter attribute kept in step with groups and arrays',C+'array/different_shape/value.cpp')],
  ['reported counts and shapes, contents after growth and after reopen'],
  [('stored object and time counters','number of arrays present',C+'array/different_shape/value.cpp')])
p('D03','Object identity and activity tracking is kept intact',
  'The object ids of a phenomenon and, per property set, the active-set starts, active object ids and active object indices read back exactly as recorded, grow independently of each other, and give the same answer in the same session and after reopening.',
  ['inputs','histories'],'all histories of recording ids and active sets (including empty sets, repeated activity and 64-bit ids) over any number of phenomena and property sets, interleaved with other modifications, flushes, reopen',
  'Tests record one small batch of ids and read it back through the same handle.',
  [C+'info/identity/object_id.cpp',C+'info/identity/active_object_id.cpp',C+'info/identity/active_object_index.cpp',C+'info/identity/active_set_index.cpp',C+'object/identity/object_tracker.cpp'],
  [('tracker collections as growable arrays',C+'object/identity/object_tracker.cpp')],['object tracker collections after each step and reopen'])
p('D04','Time domains keep their clock and locations in time',
  'A time domain keeps the kind of location in time it was created for, its clock (epoch kind, origin and calendar, unit and number of units) and every time point, time box or time cell with its count exactly as recorded, in the same session and after reopening. Clocks compare equal exactly when all of these agree.',
  ['inputs','histories','configurations'],'all clocks and all histories of recording locations in time, with reopen and with other property sets being modified in between',
  'Tests use a handful of clocks and one batch of locations.',
  [C+'object/time_domain.cpp',C+'core/clock.cpp',C+'core/time/epoch.cpp',C+'info/time/location_in_time.cpp',C+'info/time/time_box.cpp',C+'info/time/time_cell.cpp',C+'info/time/time_point.cpp'],
  [('clock and configuration saved as attributes',C+'object/time_domain.cpp'),('locations as growable arrays',C+'info/time/location_in_time.cpp')],['time domain of each property set after reopen'])
p('D05','Space domains keep their configuration and coordinates',
  'A space domain keeps its mobility, item type, coordinate type and rank, and every point or box coordinate exactly as recorded, in the same session and after reopening. A property set as discretising its presence is found again and is the same property.',
  ['inputs','histories','configurations'],'all four configurations, coordinate types and ranks, all histories of recording coordinates interleaved with other modifications and reopen',
  'Tests exercise each configuration with one batch and default ranks.',
  [C+'object/space_domain.cpp',C+'info/space/mobile_space_box.cpp',C+'info/space/mobile_space_point.cpp',C+'info/space/stationary_space_box.cpp',C+'info/space/stationary_space_point.cpp'],
  [('configuration saved as attributes',C+'object/space_domain.cpp')],['space domain of each property set after reopen'])
p('D06','Collections list exactly what was added',
  'The universes, phenomena, property sets and properties of a dataset are exactly those successfully added, under the names and descriptions given and with the kind, value type, rank and shape requested; names, sizes, membership tests and lookups agree with each other, in the same session and after reopening. Looking up something that was never added is reported as an error.',
  ['inputs','histories'],'all histories of additions over the whole hierarchy with arbitrary legal names (spaces, dots, non-ASCII, reserved-looking, long) and descriptions (also empty or long), with reopen at arbitrary points',
  'Tests add one or two items with plain names per collection.',
  [CI+'core/collection.hpp',C+'object/dataset.cpp',C+'object/universe.cpp',C+'object/phenomenon.cpp',C+'object/property_sets.cpp',C+'object/property/properties.cpp',H+'group.cpp'],
  [('in-memory mirror of the stored groups',CI+'core/collection.hpp'),('group iteration',H+'group.cpp')],['collections after each step and after reopen'])
p('D07','Shared and linked parts stay shared with the right target',
  'Property sets created with the time domain or object tracking of another property set see the same information as that property set at all times, whichever of the two it is recorded through, and know whether they own it. A property set as discretising another one in time or space leads back to exactly that property with the discretisation kind given, in the same session and after reopening.',
  ['histories','inputs'],'all patterns of sharing between property sets in the same or different phenomena and universes, recording through either side, arbitrary order of creation, reopen',
  'Tests create one linked pair and check its existence, not that later modifications stay visible on both sides.',
  [C+'object/property/property_set.cpp',C+'object/identity/object_tracker.cpp',C+'object/time_domain.cpp',C+'info/property/property_group.cpp',H+'soft_link.cpp','source/data_model/cxx/include/lue/navigate.hpp'],
  [('soft links to the owner',H+'soft_link.cpp'),('discretisation links',C+'info/property/property_group.cpp')],['both sides of a link after each step and reopen'])
p('D08','A rejected addition leaves the dataset unchanged',
  'Adding a universe, phenomenon, property set or property under a name that is already taken, in a property set also when the existing property is of another kind, is rejected with an error, and a rejected addition changes nothing: everything present before is still present with its content, and nothing was added, in the same session and after reopening.',
  ['histories','inputs'],'all histories with additions under taken names at arbitrary points and levels, across all pairs of property kinds',
  'Tests try one duplicate per collection and only check that it is rejected.',
  [C+'object/property/properties.cpp',C+'object/property/property_set.cpp',C+'object/dataset.cpp',C+'object/phenomenon.cpp',C+'object/universe.cpp',C+'object/property_sets.cpp',C+'array/value_group.cpp'],
  [('existence check before creation',C+'object/property/properties.cpp')],['full content comparison after the rejection and after reopen'])
p('D09','Acknowledged and flushed content is never silently lost',
  'When storage calls fail (I/O errors, no space left, short or interrupted transfers) some call reports an error: if every modification and a later flush succeeded, everything they recorded is present with exactly those values after the dataset is closed and reopened. Failures never make content that was flushed before and not touched since read back as something else; it may be refused with an error.',
  ['fault_sequences','histories'],'all modification histories with storage failures placed at any storage call, transient or lasting until space is freed',
  'No test makes a storage call fail.',
  [H+'file.cpp',H+'dataset.cpp',HI+'attribute.hpp',H+'attributes.cpp',H+'group.cpp',H+'identifier.cpp',C+'core/array.cpp'],
  [('status of every storage library call is turned into an exception',H+'dataset.cpp'),('flush reports failure',H+'file.cpp')],['reopened content versus acknowledged history'])
p('D10','Reading under storage errors fails or returns the right content',
  'When storage calls fail while a dataset is opened or read, the operation reports an error or delivers exactly the stored content: it never returns other values and never reports stored items, attributes, links or values as absent, and the same read succeeds with the right content once storage works again and the dataset is reopened.',
  ['fault_sequences','inputs'],'all stored datasets, all read and query operations, with failures at any storage call',
  'No test makes a storage call fail.',
  [H+'dataset.cpp',H+'attributes.cpp',H+'link.cpp',H+'group.cpp',H+'file.cpp',CI+'core/collection.hpp',C+'core/array.cpp'],
  [('status checks on open, read and query calls',H+'dataset.cpp'),('existence queries',H+'link.cpp')],['result of each read versus stored content'])
p('D11','A crash never costs completed work or fabricates content',
  'When the process dies at an arbitrary instant, a dataset all of whose handles had been released before is complete. A dataset flushed and not modified since can be recovered with exactly the flushed content, and one with unflushed modifications is refused on opening unless its user explicitly asks to clear the mark of unfinished use.',
  ['crash_points','histories','fault_sequences'],'all histories with a crash at any storage call, with the write in flight applied in part, followed by a restart that sees only what reached storage',
  'No test kills a process.',
  [H+'identifier.cpp',H+'file.cpp',C+'object/dataset.cpp'],
  [('last handle closes the file',H+'identifier.cpp'),('flush',H+'file.cpp'),('consistency flag of the latest format',C+'object/dataset.cpp')],['content after restart versus history'])
p('D12','Reading never modifies storage',
  'Opening a dataset without asking for write access, reading anything from it and validating it never changes a stored byte, and attempts to modify it through such a handle are reported as errors. A dataset created in memory never touches storage.',
  ['histories','inputs'],'all datasets and all sequences of read-only operations and attempted modifications',
  'Tests check results of reads, not the absence of writes.',
  [H+'file.cpp',C+'object/dataset.cpp',C+'validate.cpp',CI+'core/collection.hpp'],
  [('default access flag',C+'object/dataset.cpp'),('in-memory driver',H+'file.cpp')],['simulated storage contents and issued calls'])
p('D13','Everything opened is released, also after failures',
  'When the last user-held handle to a dataset and its parts is gone, whatever was done with them and whether or not calls failed, nothing of the dataset is still open: the storage file is closed, and the dataset can be opened again in any mode, recreated or removed. A part that is still held keeps working after the handles it was obtained from are gone.',
  ['histories','fault_sequences','programs'],'all programs that obtain, copy, move, hold and drop handles in any order, with failing storage calls in between',
  'Tests destroy handles in scope order and never look at what remains open after a failure.',
  [H+'identifier.cpp',HI+'identifier.hpp',H+'group.cpp',H+'attribute.cpp',H+'dataset.cpp',H+'datatype.cpp',H+'dataspace.cpp',H+'file.cpp',H+'property_list.cpp'],
  [('reference counted identifiers',H+'identifier.cpp')],['open object counts and simulated file descriptors'])
p('D14','Validation accepts every consistently filled dataset',
  'A dataset written completely through the public interface, with for each recorded object and location in time the information the documentation asks for, is found valid, without errors, in the same session and after reopening, whatever its contents. Validation changes nothing and releases everything it opened.',
  ['inputs','histories','configurations'],'all datasets that can be built by filling property sets consistently, over all kinds of domains and properties',
  'Tests validate one minimal dataset per feature.',
  [C+'validate.cpp',H+'validate.cpp',H+'issues.cpp','source/data_model/cxx/include/lue/navigate.hpp'],
  [('consistency rules per property kind and domain',C+'validate.cpp')],['issues reported'])
p('D15','Validation reports inconsistent datasets',
  'Validation reports at least one error, and an assertion of validity fails, when a dataset contradicts itself: duplicate object ids, active ids that are not among the recorded objects, an active-set start beyond the recorded ids or decreasing, locations in time that decrease or do not match the active sets in number, or property values and coordinates whose number differs from that of the objects or active sets they belong to.',
  ['inputs','histories'],'all consistent datasets with one inconsistency of the listed kinds introduced at an arbitrary place, including those left behind by an interrupted sequence of updates',
  'Tests introduce a few inconsistencies in minimal datasets.',
  [C+'validate.cpp',H+'issues.cpp'],
  [('consistency rules per property kind and domain',C+'validate.cpp')],['issues reported'])
p('D16','Processes sharing a dataset never see each other half-done',
  'While one process has a dataset open for modification, another process that opens it gets an error; any number of processes can read a dataset at the same time and each sees exactly the stored content; and once the modifying process released everything, others can open it and see everything it recorded. What a process leaves behind that dies while modifying can either not be opened by others or is found as it was recorded at some point.',
  ['schedules','histories','crash_points'],'all interleavings, at storage-call granularity, of one modifying and several reading processes, including one that dies',
  'Tests run one process.',
  [H+'file.cpp',C+'object/dataset.cpp',H+'identifier.cpp'],
  [('file locking of the storage library, and access flags passed to it',H+'file.cpp'),('latest format with consistency flag',C+'object/dataset.cpp')],['outcome of each open and the content read'])
p('H01','Array storage honours every selection, fill and resize',
  'Reading, writing and filling an arbitrary regular selection (offset, stride, count) of a stored array of any supported type and rank touches exactly the selected elements, in row-major order, and resizing keeps the common part and gives new elements the fill value; this holds for any chunking, after reopening, and with memory and file types that differ but represent the values. Requests outside the array are reported as errors and change nothing.',
  ['inputs','histories','fault_sequences'],'all arrays, chunk shapes, selections, types and sequences of operations',
  'Tests use a few contiguous blocks on small arrays.',
  [H+'dataset.cpp',H+'hyperslab.cpp',H+'dataspace.cpp',H+'chunk.cpp',H+'datatype.cpp',HI+'datatype_traits.hpp',C+'core/array.cpp'],
  [('hyperslab selection',H+'dataset.cpp'),('element count of a selection',H+'hyperslab.cpp')],['array contents versus a plain in-memory array'])
p('H02','Attributes hold the last value written',
  'An attribute of an object, of any supported type (numbers, text, lists of numbers), reads back exactly the value last written to it, also when a value of another length was written before, in the same session, through other handles to the same object and after reopening. Attributes that were never written are reported as not existing.',
  ['inputs','histories','fault_sequences'],'all sequences of writes and overwrites of attributes of any type and length over any number of objects, with failing storage calls',
  'Tests write each attribute once, or overwrite with a value of the same length.',
  [HI+'attributes.hpp',HI+'attribute.hpp',H+'attributes.cpp',H+'attribute.cpp',H+'datatype.cpp'],
  [('create or overwrite',HI+'attributes.hpp')],['attribute values versus a map'])
p('H03','Groups and links mirror the stored hierarchy',
  'Groups, arrays, soft links and hard links are found under exactly the names and parents they were created with and with their kind, a link leads to the object it was created for whatever path or handle is used, two handles compare equal exactly when they refer to the same stored object, and the reported parents and path names are those of the object; creating something under a taken name is an error and changes nothing.',
  ['inputs','histories','fault_sequences'],'all hierarchies built by arbitrary sequences of creations of groups, arrays and links, with reopen and failing storage calls',
  'Tests use flat hierarchies with one link.',
  [H+'group.cpp',H+'link.cpp',H+'soft_link.cpp',H+'hard_link.cpp',H+'primary_data_object.cpp',H+'object_info.cpp',H+'identifier.cpp'],
  [('name iteration',H+'group.cpp'),('object identity by file number and address',H+'object_info.cpp')],['listing and identity versus a tree model'])
p('H04','Handles own their object as long as any copy lives',
  'For every program that copies, assigns, moves, self-assigns and destroys handles to stored objects, the object stays open while at least one handle refers to it and is closed exactly once, when the last one is gone; a moved-from handle owns nothing and no operation ever closes an object another handle owns.',
  ['programs','histories','fault_sequences'],'all programs over handles of all object kinds, with failing close calls',
  'Tests cover one copy, one move and one assignment.',
  [H+'identifier.cpp',HI+'identifier.hpp'],
  [('reference counting',H+'identifier.cpp')],['reference counts and open object counts of the storage library'])
p('R01','Raster views keep every layer, constant and through time',
  'A raster view created in a dataset has the object id, bounding box, grid shape and, through time, clock and time boxes given, and every layer added to it has exactly the values and no-data value written, per time step where applicable, in the same session, through a second view and after reopening. Asking whether a raster, layer or name is present, and probing a stored raster, agrees with what was created.',
  ['inputs','histories','fault_sequences'],'all histories of creating views (several per dataset, sharing phenomena), adding layers of all value types, writing time steps in any order, reopening',
  'Tests create one view with one or two layers.',
  [L+'raster_view.cpp','source/data_model/hl/include/lue/data_model/hl/raster_view.hpp',L+'util.cpp'],
  [('mapping of views to property sets and discretisations',L+'raster_view.cpp')],['views and layers versus a model'])
p('G01','Rasters in other formats are written and read exactly',
  'Cells written to a band of a raster, whole or block by block in any order, are read back exactly, whole or block by block, in the same session and after reopening, together with the band count, value type, shape, no-data value and geo-transform; every cell belongs to exactly one block. Copying a raster into a new one keeps all of it.',
  ['inputs','histories','fault_sequences'],'all raster shapes, block shapes (also when blocks stick out), value types, band counts and write orders',
  'Tests use one small raster with default blocks.',
  [G+'raster.cpp',G+'raster_band.cpp',G+'dataset.cpp',G+'blocks.cpp' if os.path.exists('/repo/'+G+'blocks.cpp') else 'source/data_model/gdal/include/lue/gdal/blocks.hpp',G+'driver.cpp'],
  [('block traversal','source/data_model/gdal/include/lue/gdal/blocks.hpp'),('band I/O',G+'raster_band.cpp')],['cells read back versus a plain array'])
p('G02','Failing raster I/O is reported',
  'When storage fails while a raster is opened, read or written the call reports an error or has its full effect: a read never delivers other cells than those stored and a raster that cannot be opened is never reported as usable. A raster that does not exist is reported as absent where absence is an answer, and as an error where it is not.',
  ['fault_sequences','inputs'],'all raster reads and writes with storage failures at any call',
  'No test makes a storage call fail.',
  [G+'raster_band.cpp',G+'dataset.cpp',G+'raster.cpp',G+'error.cpp'],
  [('error status turned into exceptions',G+'raster_band.cpp')],['outcome of each call versus stored cells'])
p('G03','Comparing rasters finds every difference and nothing else',
  'Comparing two rasters reports them as equal exactly when they have the same shape, number of bands and value types and hold the same valid cells with the same values; any difference is reported, wherever the cell is and however the two are stored in blocks, and a comparison that cannot read a raster reports an error.',
  ['inputs','configurations','fault_sequences'],'all pairs of rasters that are equal or differ in one aspect, over all block layouts, with failing storage calls',
  'Tests compare a raster with itself and with one obviously different raster.',
  [G+'compare_rasters.cpp' if os.path.exists('/repo/'+G+'compare_rasters.cpp') else 'source/data_model/gdal/include/lue/gdal/compare_rasters.hpp',G+'raster_band.cpp'],
  [('block-wise comparison of valid cells',G+'compare_rasters.cpp')],['comparison result versus cell-wise model'])
p('Q01','Measured durations are right whatever the wall clock does',
  'The duration of a run is the time that elapsed between its start and its stop, never negative and not affected by the wall clock being set, stepped or drifting meanwhile; runs of an experiment are kept in order, each with its own duration, and the start time is that of the wall clock at that instant.',
  ['schedules','histories','fault_sequences'],'all sequences of starting and stopping runs with arbitrary elapsed times and wall clock jumps in either direction',
  'Tests sleep for real and check a lower bound.',
  [Q+'source/scalability/stopwatch.cpp',Q+'source/scalability/time_interval.cpp',Q+'source/scalability/run.cpp',Q+'source/scalability/experiment.cpp'],
  [('monotonic clock for durations',Q+'source/scalability/stopwatch.cpp')],['durations versus simulated time'])
p('Q02','Saved benchmark results are complete or reported as failed',
  'Saving the results of an experiment stores, in well-formed JSON, the task, environment and, for the experiment and every run in order, start and duration as measured, replacing what was stored there before; when storage fails so that this is not the case, saving reports an error.',
  ['fault_sequences','inputs'],'all experiments with any number of runs, and storage failing at any call of the save',
  'Tests save one experiment to a working disk.',
  [Q+'source/scalability/io.cpp',Q+'source/scalability/experiment.cpp',Q+'source/scalability/array_experiment.cpp'],
  [('JSON writer',Q+'source/scalability/io.cpp')],['stored file versus the experiment'])
p('P01','Python array access follows NumPy selection rules',
  'Indexing and assigning a stored array from Python with integers (also negative) and slices with positive steps, alone or in tuples, selects exactly the elements NumPy selects for the same expression, with the same shape and value type; values of the right shape are accepted whatever their type and layout in memory and arrive converted as NumPy converts them; assignments change exactly the selected elements in storage. The same holds for reading and assigning slices of arrays of strings. What NumPy rejects is rejected and changes nothing; other index expressions NumPy knows are either rejected, changing nothing, or do what NumPy does.',
  ['inputs','histories','fault_sequences'],'all arrays of all value types and ranks, all index expressions and values, in any order with reopening and expanding, under failing storage calls',
  'Tests use a few slices of small arrays of one type.',
  [PY+'core/array.cpp',H+'dataset.cpp'],
  [('index expression to selection, values to elements',PY+'core/array.cpp')],['results versus NumPy on an in-memory copy','content of the stored array read without the bindings'])
p('P02','Python handles keep what they depend on alive',
  'Whatever order Python objects obtained from a dataset (phenomena, property sets, domains, properties, values) are dropped or collected in, the ones still referenced keep working and show current content, and after the last one is gone the dataset is closed and complete on storage.',
  ['programs','schedules','histories'],'all programs that obtain, hold and drop dataset objects in any order, with garbage collection at arbitrary points',
  'Tests keep the dataset referenced for the duration of the test.',
  [PY+'core/collection.hpp' if os.path.exists('/repo/'+PY+'core/collection.hpp') else PY,PY+'object',H+'identifier.cpp'],
  [('keep-alive and reference policies of the bindings',PY)],['content through surviving objects; simulated storage state'])
T='source/data_model/translate/source/format/'
p('T01','Rasters survive translation to LUE and back',
  'Importing rasters with lue_translate and exporting their layers again gives rasters with the same cells, type, no-data value and extent; in between, the dataset holds the cells of each band in the phenomenon, property set and layer named in the metadata. Adding to an existing dataset keeps what it holds and, when not asked to add, an existing dataset is not touched. Imported rasters are not changed. Rasters that do not exist, are rotated or not north-up, have cells that are not square, are not mentioned in the metadata, have another extent than the layers already in the property set, or would replace a layer are refused, and failures of reading or writing rasters or the dataset are reported, never turned into missing or wrong cells.',
  ['inputs','histories','fault_sequences'],'all rasters, block layouts, metadata and existing datasets, in any order, under failing storage and GDAL calls',
  'Tests translate a few small rasters stored as a single block.',
  [T+'gdal.cpp',T+'lue.cpp','source/data_model/gdal/source','source/data_model/hl/source'],
  [('raster to LUE',T+'gdal.cpp'),('LUE to raster',T+'gdal.cpp')],['cells of the imported raster versus dataset content versus exported raster'])
p('T02','JSON documents arrive in the dataset as written',
  'After importing JSON documents with lue_translate, the dataset holds exactly the universes, phenomena, object ids, property sets, time and space domains, active sets and properties they describe: values, types, shapes and order as in the documents, values and boxes taken from rasters as those rasters hold them, and discretizations leading to the properties referred to. Adding documents to an existing dataset appends to what is there. Documents that are damaged, incomplete, or do not fit the dataset (another clock, type or shape), have values that do not fit their shapes, or refer to things that do not exist are refused, and a document that cannot be read leaves an existing dataset untouched. Failures of storage are reported, never turned into missing or wrong values.',
  ['inputs','histories','fault_sequences'],'all documents and sequences of documents, under failing storage and GDAL calls',
  'Tests import a handful of documents to new datasets.',
  [T+'json.cpp','source/data_model/cxx/include/lue/navigate.hpp','source/data_model/utility/source/environment.cpp'],
  [('JSON to LUE',T+'json.cpp')],['dataset content versus the documents'])
p('F01','Array operations give one result under every schedule',
  'Applying a cell-wise or reducing operation to partitioned arrays gives the result the same operation has on the undivided array, whatever the shape of the partitions, the number of processes they live on, the order in which tasks run and messages arrive, and whether inputs are ready when the operation is called.',
  ['schedules','inputs','configurations'],'all task orders and message delays, partition shapes, locality counts, and argument readiness orders',
  'The framework is not built here; its tests run real schedules on a few shapes.',
  [FW+'algorithm',FW+'partitioned_array',FW+'core'],
  [('futures, continuations and partition components',FW+'algorithm')],['result arrays versus a sequential reference'])
p('F02','Neighbourhood operations do not see partition borders',
  'A focal operation gives in every cell the value it would have on the undivided array, including cells whose neighbourhood crosses borders and corners of partitions on other processes, under every task order.',
  ['schedules','inputs','configurations'],'all task orders, kernels, partition shapes and array shapes',
  'The framework is not built here; its tests run real schedules on a few shapes.',
  [FW+'algorithm'],[('halo exchange between partitions',FW+'algorithm')],['result arrays versus a sequential reference'])
p('F03','Flow routing finishes and equals the sequential result',
  'Routing operations over a flow direction network spread over partitions (accumulating material with its threshold, fraction, trigger, capacity and kinematic wave variants, inflow counts, distances, values of upstream and downstream cells) finish under every task order and message delay and give in every cell the result of processing the undivided network in downstream order, conserving material. Routes through cells in decreasing order of their values visit all cells holding a value, highest first, up to the number asked for.',
  ['schedules','inputs','configurations'],'all acyclic flow direction networks, partition shapes, task orders and message delays',
  'The framework is not built here; its tests run real schedules on a few networks.',
  [FW+'algorithm'],[('inter-partition channels and futures',FW+'algorithm')],['result arrays versus a sequential reference; completion'])
p('F04','Model runs advance in order with bounded concurrency',
  'Running a model calls the stages of model and progressor in order, once per sample or time step, never works on more time steps at the same time than the rate limit given (counted from the slowest unfinished one) but does allow that many, and returns when all steps are done, under every task order. An exception thrown by a stage ends the run and reaches the caller, and nothing of the run outlives what it uses.',
  ['schedules','configurations'],'all step counts, rate limits and task orders, including steps that finish out of order',
  'The framework is not built here; its tests run real schedules.',
  [FW+'model'],[('rate limiting of time steps',FW+'model')],['recorded stage history'])
p('F05','Concurrent array input and output keeps every cell',
  'Writing partitioned arrays to datasets and reading arrays, or parts of them, back, with requests overlapping in time and partitions spread over processes, transfers every cell to and from its own position. A read returns what the writes requested before it stored, later writes replace earlier ones, all requests finish and leave the datasets closed, under every task order. A request that fails because the disk does is reported to who waits for it.',
  ['schedules','inputs','fault_sequences'],'all partition shapes, task orders and failing storage calls',
  'The framework is not built here; its tests run real schedules on a working disk.',
  [FW+'io'],[('serialised access to the storage library',FW+'io')],['stored cells versus array'])
p('F06','Moving partitions between processes preserves them',
  'Partition data, arguments and results that travel between processes arrive with the same shape and element values as they had. What has travelled is independent of what it was made from; copies within a process share elements as documented, but moving, assigning, emptying or reshaping one of them never changes what the others hold. Partitions change only when asked to, in the order requests are settled, and exist exactly as long as something refers to them, wherever that is.',
  ['inputs','schedules'],'all element types, ranks and shapes, and all orders of transfer and modification',
  'The framework is not built here; its tests transfer a few arrays.',
  [FW+'core',FW+'partitioned_array'],[('serialisation of partition data',FW+'core')],['array contents at the receiver'])
p('F07','Generated arrays follow their definition whatever the partitioning',
  'Arrays that are generated cover every cell once and follow their definition for every array shape, partition shape, number of localities and schedule. Uniform random values lie within the requested bounds, take all values of a small integer range and spread over a large one, normal values have the requested mean and standard deviation, partitions do not repeat each other, and no-data parameters give no-data. Noise depends on the coordinates and the seed only. Cells are numbered uniquely in row-major order starting with the first number, coordinates increase with the step along their dimension only. Arrays with one value per partition (locality, time, number of unique values) have the value of that partition at the position of the partition.',
  ['inputs','schedules'],'all forms of generation, all array and partition shapes, including those in which the last partition is larger, and all orders in which parameters and partitions become available',
  'The framework is not built here; its tests generate a few arrays whose partitions all have the same shape.',
  [FW+'algorithm'],[('uniform, normal, open_simplex_noise',FW+'algorithm/include/lue/framework/algorithm/definition'),('range, mesh_grid, locality_id, timestamp, partition_count_unique',FW+'algorithm/include/lue/framework/algorithm')],['values of generated arrays'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P),'properties')
