property C04
use cachepath
strict

ghost target string   # the final file
ghost tmp util.FileLike
ghost copied bool     # the temporary file is complete
ghost newSize int     # size of the complete temporary file
ghost exist int       # size of the final file as it is now, 0 if there is none
ghost measured int    # measured size of the cache
ghost known bool      # the size has been measured
ghost evicted int     # sum of the sizes of the files evicted since then
ghost evictions int
ghost victim string   # result of the last search for a victim
ghost victimSize int
ghost victimKind string
ghost moved bool

spec maxSize() int = config.Current.CacheMaxSize
spec strategy() string = config.Current.CacheEvictionStrategy
# the size the cache will have when the new file is in place
spec future() int = measured - evicted + newSize - exist

verify cache.CacheToFile, cache.deleteFilesFromCacheIfNeeded, util.OsFilesystem.DirSizeInBytes

extern sync.Mutex.Lock(m)
extern sync.Mutex.Unlock(m)
pure extern util.FileLike.Name(f) (r) as nameOf
pure extern io/fs.FileInfo.Size(i) (r) as infoSize
extern util.FileLike.Stat(f) (info, err)
  ensures f == tmp && copied && err == nil ==> infoSize(info) == newSize
extern util.FileLike.Close(f) (err)
extern io.Copy(dst, src) (n, err)
  modifies copied
  ensures copied <==> (err == nil && dst == tmp)
extern util.Filesystem.MkdirAll(fs, path) (err)
extern util.Filesystem.CreateTemp(fs, dir, pattern) (f, err)
  note "the name of the temporary file is none of the cached files"
  modifies tmp, copied
  ensures err == nil ==> f != nil && tmp == f && nameOf(f) != target
  ensures !copied
extern util.Filesystem.DirSizeInBytes(fs, path) (err, n)
  modifies measured, known, evicted
  ensures err == nil && path == config.Current.CacheDir ==> known && measured == n && evicted == 0
  ensures err != nil || path != config.Current.CacheDir ==> known == old(known) && measured == old(measured) && evicted == old(evicted)
extern util.Filesystem.GetSizeInBytes(fs, path) (n, err)
  note "a file whose size cannot be determined does not exist"
  ensures path == target && err == nil ==> n == exist
  ensures path == target && err != nil ==> exist == 0
extern util.Filesystem.FindLargestFile(fs, path, except) (err, n, p)
  note "the search itself is property C05; it never reports a file of the temporary folder"
  requires [searches the cache without the temporary folder] path == config.Current.CacheDir && except == ".tmp"
  modifies victim, victimSize, victimKind
  ensures victim == p && victimSize == n && victimKind == "largest"
  ensures p == target ==> n == exist
  ensures p != nameOf(tmp)
extern util.Filesystem.FindLruFile(fs, path, except) (err, n, p)
  note "the search itself is property C05; it never reports a file of the temporary folder"
  requires [searches the cache without the temporary folder] path == config.Current.CacheDir && except == ".tmp"
  modifies victim, victimSize, victimKind
  ensures victim == p && victimSize == n && victimKind == "lru"
  ensures p == target ==> n == exist
  ensures p != nameOf(tmp)
extern util.Filesystem.Remove(fs, path) (err)
  requires [never evicts for the strategy none] path == nameOf(tmp) || strategy() != "none"
  requires [evicts only the victim of the configured strategy] path == nameOf(tmp) || path == victim && victimKind == strategy()
  requires [evicts only if necessary] path == nameOf(tmp) || known && maxSize() <= future()
  modifies evicted, evictions, exist
  ensures path == nameOf(tmp) || err != nil ==> evicted == old(evicted) && evictions == old(evictions)
  ensures path != nameOf(tmp) && err == nil ==> evicted == old(evicted) + victimSize && evictions == old(evictions) + 1
  ensures path == target && path != nameOf(tmp) && err == nil ==> exist == 0
  ensures path != target || path == nameOf(tmp) || err != nil ==> exist == old(exist)
extern util.Filesystem.Rename(fs, from, to) (err)
  requires [stays below the maximum size] strategy() == "none" || known && copied && future() < maxSize()
  modifies moved
  ensures moved <==> (old(moved) || err == nil)

func cache.deleteFilesFromCacheIfNeeded(cacheFolderName, newFileName, newFileSizeInBytes, cacheSizeInBytes) (err)
  requires target == cachePath(cacheFolderName, newFileName)
  requires known && cacheSizeInBytes == measured - evicted && newFileSizeInBytes == newSize && strategy() != "none"
  requires target != nameOf(tmp)
  modifies victim, victimSize, victimKind, evicted, evictions, exist
  ensures [the new file fits] err == nil ==> future() < maxSize()
  loop 1
    invariant cacheSizeInBytes == measured - evicted
    invariant netCacheSizeChangeInBytes == newSize - exist

func cache.CacheToFile(cacheFolderName, filename, reader) (r, err)
  requires target == cachePath(cacheFolderName, filename) && evictions == 0 && !moved && !known
  modifies tmp, copied, measured, known, evicted, evictions, exist, victim, victimSize, victimKind, moved
  ensures [no eviction for the strategy none] strategy() == "none" ==> evictions == 0
  ensures [otherwise storing fails] err == nil ==> moved

# The measured size: the sum of the sizes of all files below the directory.
ghost total int
ghost incomplete bool
spec infoAt(p string) io/fs.FileInfo
pure extern io/fs.FileInfo.IsDir(i) (r) as isDir
extern util.RequireFilePathIsSanitized(p)
  note "ends the program for an unsanitised path"
func util.OsFilesystem.DirSizeInBytes(fs, path) (err, n)
  requires total == 0 && !incomplete
  modifies total, incomplete
  ensures [the size is the sum of the sizes of all files] err == nil ==> n == total && !incomplete
  walk
    assume $err == nil ==> $info != nil
    set total := total + ite($err == nil && !isDir($info), infoSize($info), 0)
    set incomplete := incomplete || $skipDir || $skipAll || $err != nil && !notExist($err) && $ret == nil
    invariant dirSizeBytes == total
    invariant !incomplete
pure extern os.IsNotExist(e) (r) as notExist
