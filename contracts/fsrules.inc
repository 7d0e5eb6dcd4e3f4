@type File => VxFile
@type Path => PathBuf
@type Cow<'static, str> => String
@call File::open => VxFile::open
@call File::create => vx_create
@call io::BufWriter::new => VxBuf::new
@call Path::new => vx_pathlike
@call Encoding::for_label_no_replacement => vx_encoding
@method as_bytes => vx_as_bytes
@method join => vx_join
@call fs::create_dir_all => vx_create_dir_all
