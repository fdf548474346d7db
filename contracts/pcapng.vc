@fn pcapng::File::create
@tags G01
@ens G01: r matches Ok(f) ==> crate::stubs::file_of(final(w)@, f.file.fid()) =~= crate::iospec::shb() + crate::iospec::idb()
@ens G01 P02: r matches Ok(f) ==> f.file.fid() == old(w)@.nfile && final(w)@.files.remove(old(w)@.nfile) =~= old(w)@.files.remove(old(w)@.nfile)
@start
proof { crate::iospec::lem_header(); }
broadcast use crate::iospec::seq_group;

@fn pcapng::File::write
@tags G01
@req packet@.len() < 0x8000_0000
@ens G01: r is Ok ==> crate::iospec::epb_step(crate::stubs::file_of(old(w)@, self.file.fid()), crate::stubs::file_of(final(w)@, self.file.fid()), packet@)
@ens G01 P02: r is Ok ==> final(w)@ == (crate::stubs::WG { files: final(w)@.files, ..old(w)@ })
@ens G01: r is Err ==> final(w)@ == (crate::stubs::WG { files: final(w)@.files, io_err: true, ..old(w)@ })
@ens G01 P02: final(w)@.files.remove(self.file.fid()) =~= old(w)@.files.remove(self.file.fid())
@start
broadcast use crate::iospec::lem_epb;
