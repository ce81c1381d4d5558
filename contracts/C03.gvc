property C03
use cachepath
strict

ghost locked bool      # the cache lock is held
ghost source io.Reader # the reader whose data is to be stored
ghost target string    # the final file
ghost haveTmp bool     # a temporary file has been created
ghost tmp util.FileLike
ghost copied bool      # all data of the source has been written to the temporary file, nothing else
ghost closed bool      # the temporary file has been closed without error
ghost moved bool       # the temporary file has been moved to the final file
ghost tmpGone bool     # the temporary file has been moved or its removal requested

verify cache.CacheToFile, cache.deleteFilesFromCacheIfNeeded

extern sync.Mutex.Lock(m)
  requires [no deadlock] !locked
  modifies locked
  set locked := true
extern sync.Mutex.Unlock(m)
  requires locked
  modifies locked
  set locked := false

pure extern util.FileLike.Name(f) (r) as nameOf
extern util.FileLike.Stat(f) (info, err)
extern util.FileLike.Write(f, b) (n, err)
  modifies copied
  set copied := copied && f != tmp
extern util.FileLike.Close(f) (err)
  modifies closed
  ensures closed <==> (old(closed) || f == tmp && err == nil)
extern io.Copy(dst, src) (n, err)
  note "without an error all data of the reader has been written"
  requires [under the lock] locked
  requires [into the open temporary file] haveTmp && dst == tmp && !closed
  modifies copied
  ensures copied <==> (err == nil && src == source)

extern util.Filesystem.MkdirAll(fs, path) (err)
  requires [under the lock] locked
  requires [a folder, not the final file] path != target
extern util.Filesystem.CreateTemp(fs, dir, pattern) (f, err)
  requires [under the lock] locked
  requires [one temporary file] !haveTmp
  requires [in the temporary folder] dir == join(config.Current.CacheDir, ".tmp")
  modifies haveTmp, tmp, copied, closed, tmpGone
  ensures haveTmp <==> err == nil
  ensures err == nil ==> f != nil && tmp == f
  ensures !copied && !closed && !tmpGone
extern util.Filesystem.Rename(fs, from, to) (err)
  requires [under the lock] locked
  requires [moves the temporary file] haveTmp && from == nameOf(tmp)
  requires [all data has been copied] copied
  requires [the temporary file has been closed] closed
  requires [onto the final file] to == target
  modifies moved, tmpGone
  ensures moved <==> (old(moved) || err == nil)
  ensures tmpGone <==> (old(tmpGone) || err == nil)
extern util.Filesystem.Remove(fs, path) (err)
  requires [under the lock] locked
  requires [the moved file stays] !moved || path == nameOf(tmp)
  modifies tmpGone
  set tmpGone := tmpGone || haveTmp && path == nameOf(tmp)
extern util.Filesystem.DirSizeInBytes(fs, path) (err, n)
extern util.Filesystem.GetSizeInBytes(fs, path) (n, err)
extern util.Filesystem.FindLargestFile(fs, path, except) (err, n, p)
extern util.Filesystem.FindLruFile(fs, path, except) (err, n, p)
extern util.Filesystem.Stat(fs, path) (info, err)

func cache.deleteFilesFromCacheIfNeeded(cacheFolderName, newFileName, newFileSizeInBytes, cacheSizeInBytes) (err)
  requires locked && haveTmp && !moved
  modifies tmpGone
  ensures old(tmpGone) ==> tmpGone
  loop 1
    invariant old(tmpGone) ==> tmpGone

func cache.CacheToFile(cacheFolderName, filename, reader) (r, err)
  requires !locked && !haveTmp && !moved && source == reader
  requires target == cachePath(cacheFolderName, filename) && target != join(config.Current.CacheDir, cacheFolderName)
  modifies locked, haveTmp, tmp, copied, closed, moved, tmpGone
  ensures [reports the path of the final file] r == target
  ensures [success only after the move] err == nil ==> moved
  ensures [failure leaves the final file alone] err != nil ==> !moved
  ensures [the temporary file is removed] haveTmp ==> tmpGone
  ensures [the lock is released] !locked
