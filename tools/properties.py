import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
T='glmtools/io/traversal.py'; G='glmtools/io/glm.py'; M='glmtools/io/mimic_lma.py'; C='glmtools/grid/clipping.py'
S='glmtools/grid/split_events.py'; MG='glmtools/grid/make_grids.py'; A='glmtools/grid/accumulate.py'; I='glmtools/io/imagery.py'
CC='glmtools/io/ccd.py'; L='glmtools/io/lightning_ellipse.py'; V='glmtools/io/convert_lcfa.py'; PG='glmtools/plot/grid.py'; PL='glmtools/plot/locations.py'; PV='glmtools/plot/values.py'

p('H01','Selecting records keeps exactly the related parents and children',
 'Reducing a parent/child dataset to a list of record IDs at any level returns the requested records that exist, in the requested order and repeated as often as requested, together with all and only their descendants and all and only their ancestors. Requested IDs that are not present select nothing, and every returned row keeps its own values. The source dataset is not changed, so any sequence of selections gives the same answer as making each one on its own.',
 'inputs histories','every tree (any number of levels, including childless parents, orphans and empty levels), every level, every list of IDs (empty, absent, repeated, unordered) and every chain of selections',
 'the tests select two or three hand-picked ID lists from one four-level tree; absent IDs, orphans, empty levels, repeated IDs and chained selections are never tried',
 [T],[('descend then ascend over groupby indices','OneToManyTraversal.reduce_to_entities')],['OneToManyTraversal.reduce_to_entities','GLMDataset.get_flashes'])
p('H02','Child counts and replicated ancestor IDs agree with the tree',
 'For every level, the reported number of children of each record equals the number of rows one level down that name it as parent, in row order, with zero for childless records. Replicating an ancestor level down to a lower level gives each row the ID of its own ancestor, in row order.',
 'inputs','every tree shape, ID numbering and row order, and every pair of levels',
 'the tests compare one fixed tree with sorted IDs',
 [T],[('count_children and replicate_parent_ids','OneToManyTraversal')],['OneToManyTraversal.count_children','OneToManyTraversal.replicate_parent_ids'])
p('H03','The tree check reports exactly the broken links',
 'Checking a parent/child dataset reports, per level, how many distinct IDs there are and precisely which parents have no children and which named parents do not exist. A consistent tree reports no problems and an inconsistent one always reports at least one. A dataset described with any number of parent keys other than one fewer than its levels is refused.',
 'inputs','every tree, consistent or not, including empty levels',
 'no test calls the check directly; the sample files are all consistent',
 [T],[('set comparison of ID and parent ID variables','OneToManyTraversal.check_parent_child'),('number of parent keys','OneToManyTraversal.__init__')],['OneToManyTraversal.check_parent_child','OneToManyTraversal'])
p('L01','Loading a damaged file gives a consistent tree without losing good data',
 'After a file is loaded with the tree check on, every event has its group, every group has its flash, every group has an event and every flash has a group. Exactly the flashes, groups and events that belong to a complete flash-group-event chain in the file are kept, each with its own values; a file that is already consistent is loaded unchanged, and a file with nothing usable loads as an empty dataset. With the check off and no family information asked for, every record of the file is kept as it is.',
 'inputs fault_sequences','every pattern of missing or dangling flash, group and event records, including files with no flashes, groups or events',
 'the sample files are consistent, so the repair never runs in the tests',
 [G,T],[('check_tree repair','GLMDataset.__init__'),('empty dimension handling','OneToManyTraversal.__init__')],['GLMDataset(filename).dataset'])
p('L02','Loaded flashes, groups and events carry correct family information',
 'After loading, every event carries the ID of the flash it belongs to, every flash carries its number of groups and of events, and every group carries its number of events. The counts over all flashes and groups add up to the number of groups and events in the dataset.',
 'inputs','every consistent file, any numbering and ordering of the records',
 'the tests only look at totals for the sample files',
 [G,T],[('parent-child data calculated on load','GLMDataset.__init_parent_child_data')],['GLMDataset(filename).dataset'])
p('L03','Areas are in square kilometres and energies in nanojoules after loading',
 'Loaded flash and group areas are the file values in km2 whichever area unit the file uses, and areas that overflowed the encoding (stored as missing) become the largest encodable area rather than missing. Loaded energies are the file values in nJ, and events reported with zero energy get half of the smallest nonzero energy the file can encode while every other event keeps its energy. A file whose energies are not in joules is refused. Each conversion can be switched off, which leaves those variables as stored.',
 'inputs configurations','every encoded area and energy value, both area units, any scale factor and offset, every combination of the options',
 'the sample files have no overflow, no m2 areas and are not compared with the raw encoding',
 [G],[('area overflow and units, zero energy and energy units','GLMDataset._check_area_overflow/_check_area_units/_eliminate_zero_energy/_change_energy_units')],['GLMDataset(filename).dataset'])
p('L04','Time offsets in files that lack the unsigned marking are corrected',
 'For products from the October-November 2018 period whose time offsets are stored without the unsigned marking, the loaded event, group and flash times are the unsigned interpretation of the stored offsets, row by row, even when other records are repaired at the same time. Files outside that period, files without the frame time variables and files that carry the marking load with the times they state.',
 'inputs configurations','every stored offset, every product time (including the limits of the period) and every record order',
 'no sample file comes from the affected period',
 [G],[('missing unsigned attribute correction','GLMDataset._check_and_fix_missing_unsigned_time')],['GLMDataset(filename).dataset'])
p('L05','Flash filters keep exactly the flashes that satisfy every condition',
 'Filtering flashes by any combination of longitude, latitude and fixed grid ranges, minimum event count and minimum group count keeps exactly the flashes that satisfy all given conditions, each with all of its groups and events and nothing else. The optional event position check additionally drops only flashes that have no event inside the (clipped) fixed grid range.',
 'inputs configurations','every dataset and every combination of filter arguments, including values exactly on a limit and filters that keep nothing',
 'the tests use one filter setting on one file',
 [G,T],[('subset_flashes','GLMDataset.subset_flashes')],['GLMDataset.subset_flashes'])
p('L06','The event location table conserves energy, counts and areas per location',
 'Every event is assigned to exactly one location of the event table and every table row describes its own events: total energy, number of events, number of distinct flashes and groups, their total areas, the smallest flash area, and mean position, with the product time as its time. Summed over the table, energy and event count equal those of the dataset.',
 'inputs','every arrangement of events over locations, flashes and groups, including flashes that revisit a location and datasets with no events',
 'the test compares totals for three sample files',
 [G],[('get_lutevents aggregation','get_lutevents, event_lut_iter')],['get_lutevents'])
p('L07','Location identifiers are unique to a discretized position',
 'Two positions within the coordinate range get the same location identifier exactly when they fall in the same discretization cell in both coordinates. This holds up to the edges of the range, for ranges that are not square, and for every interval for which the identifier type is large enough.',
 'inputs','every pair of positions, ranges and intervals',
 'no test looks at identifiers',
 [G],[('row-major cell number','discretize_2d_location')],['discretize_2d_location'])
p('L08','Signed storage of unsigned values is decoded without loss',
 'Decoding a packed variable that was read as signed integers but is declared unsigned gives, for every possible stored integer, the value offset + scale x (unsigned integer). The same holds for event latitudes and longitudes by the dedicated correction, whether given raw or already scaled variables, over the whole documented field of view.',
 'inputs','every stored 8, 16 or 32 bit integer and every scale factor and offset in use',
 'no test calls these decoders',
 [G],[('unscale, cast, rescale','fix_unsigned, fix_event_locations')],['fix_unsigned','fix_event_locations'])
p('L09','The reported field of view is the box of the events loaded',
 'The field of view bounds reported for a loaded file are the smallest and largest longitude and the smallest and largest latitude of its events, longitudes first, so that the box holds every event and no smaller box does.',
 'inputs','every file with at least one event, with events anywhere in the encodable range and in any row order',
 'no test asks for the bounds',
 [G],[('minima and maxima of event positions','GLMDataset.fov_bounds')],['GLMDataset.fov_bounds'])
p('N01','File names are parsed to the times they state',
 'Parsing a product file name returns the environment, product, platform, and start, end and creation times exactly as written, to the tenth of a second, for every day of leap and common years.',
 'inputs','every valid file name',
 'the tests use a few file names from one day',
 [G],[('day of year parsing','parse_glm_filename, parse_glm_filename_time')],['parse_glm_filename'])
p('A01','Conversion of text listings keeps every record and its parent',
 'Converting a text listing of flashes, groups and events yields exactly the records in the listing, with each group attached to the flash and each event to the group that it names, in listing order, and all values preserved. The converted dataset supports the same parent/child queries as a product file.',
 'inputs','every listing: any number of flashes, groups per flash and events per group',
 'no test covers the converter',
 [V],[('line parsers','parse_LCFA_ASCII'),('merge of tables','merge_dataframes_to_xarray')],['parse_LCFA_ASCII','merge_dataframes_to_xarray','main'])
p('E01','Fixed grid positions follow the satellite view of the lightning ellipsoid',
 'The fixed grid position computed for a longitude and latitude is the angle at which the satellite sees that point on the selected lightning ellipsoid, accurate to a small fraction of a pixel, for any satellite longitude and any equivalent way of writing the longitude. Positions are symmetric east/west and north/south of the subsatellite point, and the caller\'s arrays are not changed.',
 'inputs configurations','every visible longitude and latitude, every satellite longitude (including near the date line), every ellipsoid revision',
 'the tests check a dozen positions for one satellite longitude',
 [L],[('ltg_ellps_lon_lat_to_fixed_grid','ltg_ellps_lon_lat_to_fixed_grid')],['ltg_ellps_lon_lat_to_fixed_grid'])
p('E02','The lightning ellipsoid revision is the one in force at the product time',
 'Unless a revision is requested, positions of flashes, groups and events in a loaded file are computed with the ellipsoid in force at the product time, for every date; a requested revision is always used instead. The revision and the radii reported for a date always agree.',
 'inputs configurations','every product time, in particular around the change of ellipsoid, every requested revision',
 'all sample files are from one day and the revision is always passed in the tests',
 [L,G],[('ltg_ellpse_rev, ltg_ellps_radii','lightning_ellipse'),('fixed grid positions on load','GLMDataset.__init_fixed_grid_data')],['ltg_ellpse_rev','ltg_ellps_radii','GLMDataset(filename).dataset'])
p('C01','Slicing a polygon by a mesh conserves area and names the right cell',
 'Slicing polygons by a target mesh returns, for each polygon, the pieces inside each mesh cell it overlaps, each piece labelled with the index of the cell that contains it and with its area as a fraction of the polygon area. The fractions sum to the part of the polygon that lies inside the mesh, no cell is returned twice for a polygon, and the reported polygon areas are the true areas. With a given bounding box, only cells in the box or next to it are used.',
 'inputs configurations','every convex polygon and every regular or irregular mesh, either orientation, either index order, polygons inside, across the edge of, containing or outside the mesh, and every way of limiting the candidate cells',
 'no stable test slices polygons',
 [C],[('QuadMeshPolySlicer.slice, QuadMeshSubset','clipping.py')],['QuadMeshPolySlicer.slice'])
p('C02','Mesh lookups find every cell that touches the requested region',
 'Looking up the cells of a mesh for a bounding box returns every cell whose extent overlaps the box; looking up the cells near a point returns the cell that contains the point for a regular mesh, and the requested number of cells with the nearest centres for an irregular one. The returned corners are those of the returned cell indices. No index outside the mesh or repeated cell is returned.',
 'inputs configurations','every regular or irregular mesh, both index orders, increasing or decreasing edges, every box and point including those partly or wholly outside the mesh',
 'no stable test exercises mesh subsetting',
 [C],[('QuadMeshSubset.quads_in_bbox, quads_nearest','clipping.py')],['QuadMeshSubset.quads_in_bbox','QuadMeshSubset.quads_nearest'])
p('C03','Polygon union covers exactly the polygons joined',
 'Joining polygons yields outlines that enclose a point exactly when some input polygon encloses it, so the enclosed area equals the area covered by the inputs with overlaps counted once. The result does not depend on the order or winding of the inputs.',
 'inputs','every collection of polygons: disjoint, touching, nested and overlapping',
 'no stable test joins polygons',
 [C],[('join_polys','clipping.py')],['join_polys'])
p('C04','Splitting events attributes each piece to its own event and cell',
 'Every piece produced by slicing the events becomes one row of the split table carrying its own event, cell, position inside the piece, and area fractions of the event and of the mesh cell. When the events are replicated to the pieces, each piece receives the properties of its own event, and quantities weighted by the event area fraction sum back to the event totals.',
 'inputs','every set of events, in any order, with any number of pieces each (including none)',
 'no stable test runs the split',
 [S],[('split_event_data, split_event_dataset_from_props, replicate_and_weight_split_child_dataset','split_events.py')],['split_event_data','split_event_dataset_from_props','replicate_and_weight_split_child_dataset'])
p('C05','Event footprints come from the nearest entries of the corner table',
 'The quadrilateral returned for an event is the event position plus the interpolated corner offsets of the pixel table at that position, scaled by the requested inflation about the event position, with corners in the order of the table. Positions outside the table use its nearest entry (or none when extrapolation is off), and the row order of the events is kept.',
 'inputs configurations','every position inside or outside the table, every inflation factor, every satellite longitude',
 'no stable test computes footprints',
 [CC],[('quads_from_corner_lookup','ccd.py')],['quads_from_corner_lookup'])
p('C06','Pixel lookup tables return the nearest pixel and survive saving',
 'A pixel lookup built from pixel coordinates returns the index of the pixel nearest to the queried position, ignoring pixels without coordinates. Saving and loading lookup tables gives back tables with the same contents and the same answers, and tables of pixels or corners read from the instrument files hold what those files state.',
 'inputs histories','every pixel array with any pattern of missing coordinates, every query position, every save and load sequence',
 'no test covers the lookup tables',
 [CC],[('create_pixel_lookup, save/load functions','ccd.py')],['create_pixel_lookup','save_pixel_lookup','load_pixel_lookup','save_pixel_corner_lookup','load_pixel_corner_lookup','read_official_corner_lut','read_pixel_location_mat_file'])
p('C07','Clipping by one polygon returns the pieces of each polygon in order',
 'Clipping a list of polygons by one polygon returns, polygon by polygon in the given order, the pieces of it that lie inside the clipping polygon, and the number of pieces of each; the polygons given are not changed. The area of a polygon is its signed area from any first vertex, for one or many polygons at a time, and the lines and cells of a mesh consist of exactly its vertices, in order.',
 'inputs','every simple polygon, convex or not and of either winding, with scaled or integer coordinates, and every mesh',
 'no test clips polygons directly, computes areas or takes lines of a mesh',
 [C],[('clip_polys_by_one_poly, poly_area, vectorized_poly_area','clipping.py'),('lines_from_quadmesh, polys_from_quadmesh','clipping.py')],['clip_polys_by_one_poly','poly_area','vectorized_poly_area','lines_from_quadmesh','polys_from_quadmesh'])
p('G01','Accumulated grids do not depend on the order or grouping of the data',
 'Accumulating batches of pre-gridded rows, each naming a cell at most once per batch, leaves in each cell the sum (or, for minimum grids, the smallest value) of exactly the rows that name that cell, and leaves all other cells empty. Any order of the batches and any division of the same rows into batches gives the same grid, and empty batches change nothing.',
 'inputs schedules histories','every sequence of batches and every arrangement of rows over the cells, including cells at the edge of a non-square grid and cells hit by many batches',
 'no test runs the accumulators; they need the gridding dependency which is absent from the test environment',
 [A],[('accumulating coroutines','accumulate_var_on_grid_direct_idx, accumulate_minvar_on_grid_direct_idx')],['accumulate_var_on_grid_direct_idx','accumulate_minvar_on_grid_direct_idx','select_dataset'])
p('G02','Chunked event clipping loses nothing and weights by shared area',
 'Sending a dataset to the gridding pipeline in chunks of any size delivers every event location that overlaps the grid, once per overlapped cell, with energy weighted by the fraction of the event in the cell, counts and areas weighted by the fraction of the cell covered, and minimum area unweighted. Totals do not depend on the chunk size, and events away from the grid contribute nothing.',
 'inputs configurations schedules','every dataset, grid and chunk size',
 'needs the gridding dependency which is absent from the test environment, so no test runs it',
 [M,S,C],[('read_flashes, split_event_data','mimic_lma.py')],['read_flashes','GLMlutGridder'])
p('G03','Gridded products equal the event, group and flash totals cell by cell',
 'Each product of the gridder (flash and group extent and centroid density, average areas, total energy, minimum flash area) equals, for every cell and every frame, the value defined from the flashes, groups and events of the input files that fall in that cell and frame. No input inside the grid and time range is lost or counted in two frames, regardless of how the input is divided into files.',
 'inputs configurations','every set of input files, grid, frame interval and start and end time',
 'needs the gridding dependency which is absent from the test environment, so no test runs it',
 [MG,M,A],[('GLMlutGridder, grid_GLM_flashes, proc_each_grid','make_grids.py'),('accumulators','accumulate.py')],['grid_GLM_flashes','GLMlutGridder.outgrids'])
p('G04','Subdividing the grid gives every cell to one tile with the same options',
 'Dividing the grid into tiles covers every cell of the full grid exactly once, and padding only extends the area from which data are drawn: outputs held back for a padded tile are cut to the cells of the tile and each is written once, in order, with the name and options it was given. Every tile is processed with the same options and its output reports the file names written for it.',
 'inputs configurations histories','every grid size, subdivision and padding',
 'needs the gridding dependency which is absent from the test environment, so no test runs it',
 [MG],[('subdivide_bnd, subdivided_fixed_grid, grid_GLM_flashes','make_grids.py')],['subdivide_bnd','subdivided_fixed_grid','GridOutputPreprocess','grid_GLM_flashes'])
p('G05','Flash point tables hold every selected flash, group and event once',
 'Reading files as tables of events and flashes gives one event row per event of each selected flash and one flash row per flash, with position (at no altitude), time relative to the base date, energy, area and parent ID of that record and a flash-start to flash-end duration. Flashes outside the requested region or below the requested event or group count are left out together with their events, each file is found by its product time, and the chunk size does not change the tables. A time series gives each window the events and flashes within it and, when polygons are given, inside the polygon for their time.',
 'inputs configurations','every set of files, bounds and base dates',
 'needs the gridding dependency which is absent from the test environment, so no test runs it',
 [M],[('TimeSeriesGLMFlashSubset, GLMncCollection, fake_lma_from_glm*','mimic_lma.py')],['GLMncCollection','TimeSeriesGLMFlashSubset','read_flashes'])
p('G06','Flash and group outlines are split over the grid by shared area',
 'Clipping a chunk of flashes directly splits every event, and the outline joined from the events of every group and flash (each footprint enlarged by two percent), by the cells of the grid. Each piece carries the indices of its cell, the fraction of the cell it covers, the ID and time of its own event, group or flash, that record\'s energy weighted by the fraction of its whole outline that is in the cell, and a position inside the piece\'s cell. Records get pieces in exactly the cells they overlap, and the parent tables hold each event, group and flash of the chunk once.',
 'inputs configurations','every set of flashes whose outlines have no holes, also those in several parts, in fixed grid or longitude and latitude coordinates, on every rectilinear grid',
 'needs the gridding dependency which is absent from the test environment, so no test runs it',
 [M,S,C],[('read_flash_chunk with clip_events','mimic_lma.py'),('split_*_dataset_from_props, replicate_and_weight_split_child_dataset','split_events.py'),('join_polys','clipping.py')],['read_flash_chunk'])
p('I01','Encoded imagery values decode to the gridded values',
 'Every gridded value within the range of the encoding is recovered from the written integer to within half of the scale factor, cells with data are never written as empty or missing, and cells without data are written as empty. Values that are positive but smaller than the scale factor are written as the smallest nonzero value.',
 'inputs configurations','every grid of values within the range of the encoding, every product',
 'the imagery test compares a few attributes of sample files',
 [I],[('new_goes_imagery_dataset, glm_scaling','imagery.py')],['write_goes_imagery','new_goes_imagery_dataset','glm_image_to_var'])
p('I02','One imagery file per frame holds that frame, right side up',
 'Writing imagery produces exactly one file per time frame, whose start and end times are those of the frame and whose value at each (y, x) coordinate is the value of the cell with that position in the accumulated grid, with averages formed as total divided by count. Writing does not change the accumulated grids, so writing again produces the same files.',
 'inputs histories','every grid shape, values, number of frames and repetition of writing',
 'the imagery test writes sample grids of one size and looks at attributes',
 [I,MG],[('write_goes_imagery, new_goes_imagery_dataset','imagery.py'),('write_grids','make_grids.py')],['write_goes_imagery'])
p('I03','Imagery names and metadata describe the data written',
 'The file name, dataset name, time coverage, platform, orbital slot, scene, and coordinate scale and offset recorded in an imagery file are consistent with each other and with the grid and time range written. Decoding the packed x and y coordinates gives the cell centres; axes, projection, fields, their units and the quality field are described as what they hold.',
 'inputs configurations','every platform, slot, scene size, resolution and time range',
 'the imagery test covers three scenes for one time',
 [I],[('get_goes_imager_subpoint_vars, infer_scene_from_dataset, file naming','imagery.py')],['write_goes_imagery','infer_scene_from_dataset','new_goes_imagery_dataset','get_glm_global_attrs','get_goes_imager_fixedgrid_coords'])
p('I04','Opening a series of imagery files keeps every frame with its own time',
 'Opening a set of imagery files as one series gives one time step per file, labelled with that file\'s start time and holding that file\'s data, in the order in which the files are given. The time coverage of the series runs from the earliest start to the latest end.',
 'inputs configurations','every set of files in every order',
 'the existing test opens one file',
 [I],[('open_glm_time_series','imagery.py')],['open_glm_time_series'])
p('I05','Time aggregation conserves totals and recomputes averages',
 'Aggregating frames to longer intervals puts each frame into exactly one interval, the one that contains its start time. Counts and energies are summed, minimum areas take the smallest value, and average areas are the count-weighted average of the frames, for every interval length. The grid, its projection and the descriptions of fields stay those of the frames.',
 'inputs configurations','every series of frames, gaps included, every interval length and range',
 'no stable test aggregates',
 [I],[('aggregate','imagery.py')],['aggregate'])
p('P01','A plotted flash shows its own groups and events and no others',
 'The plot of a flash shows the flash, each of its groups and each of its events once, at that record\'s position and with groups and events coloured by that record\'s energy on the display scale of energies, and nothing of other flashes. The title names the flash and the times of its first and last event, and given axes and projections are used.',
 'inputs configurations','every file, flash and choice of axes and projection',
 'no test plots',
 [PL],[('plot_flash','locations.py')],['plot_flash'])
p('P02','Plotted grids show each cell of the chosen frame in its place',
 'A plot of gridded products has one panel per requested field, in the order requested, showing for the requested time the value of every cell at the position of that cell on the satellite projection, with zero where there is no value. Panels are arranged as requested and zoom together. The panel names that field, that time and the largest value shown, is coloured on the display scale of that field and has a colour bar of its own; plotting again replaces the earlier plot and leaves the data as they were.',
 'inputs histories','every grid, list of fields, frame and repetition of plotting',
 'no test plots',
 [PG,PV],[('plot_glm_grid','grid.py'),('display_params','values.py')],['plot_glm_grid'])
import os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(root,'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
