property C05
use cachepath
strict

# The tree below the cache directory as the walk finds it: infoAt(path) is the file information of a path,
# victim is any file outside of the folder for temporary files.
ghost victim string
ghost exists bool   # there is such a file
ghost seen bool     # the search looked at it
ghost skipped bool  # the search left out a part of the tree in which it might be
ghost entered bool  # the search went into the folder for temporary files
ghost except string

spec infoAt(p string) io/fs.FileInfo
spec above(p string) bool          # directories on the way to that file
spec isTmpDir(p string) bool       # the folder for temporary files
spec inTmp(p string) bool          # everything below of it

pure extern io/fs.FileInfo.Size(i) (r) as sizeOf
pure extern io/fs.FileInfo.IsDir(i) (r) as isDir
pure extern io/fs.FileInfo.Name(i) (r) as nameOf
pure extern io/fs.FileInfo.ModTime(i) (r) as modTime
pure extern time.Time.Before(t, u) (r) as before
spec instant(t time.Time) int
axiom beforeComparesInstants(t time.Time, u time.Time)
  note "modification times carry no monotonic clock reading, Before compares points in time"
  ensures before(t, u) == (instant(t) < instant(u))
  trigger before(t, u)

pure extern time.Time.After(t, u) (r) as after
axiom afterComparesInstants(t time.Time, u time.Time)
  ensures after(t, u) == (instant(u) < instant(t))
  trigger after(t, u)
pure extern time.Time.Compare(t, u) (r) as compared
axiom compareComparesInstants(t time.Time, u time.Time)
  ensures compared(t, u) == ite(instant(t) < instant(u), -1, ite(instant(u) < instant(t), 1, 0))
  trigger compared(t, u)

spec isFile(p string) bool = infoAt(p) != nil && !isDir(infoAt(p)) && !inTmp(p)

verify util.OsFilesystem.FindLargestFile safety, util.OsFilesystem.FindLruFile safety

extern util.RequireFilePathIsSanitized(p)
  note "ends the program for an unsanitised path"

func util.OsFilesystem.FindLargestFile(fs, path, exceptDir) (err, n, p)
  requires !seen && !skipped && !entered && except == exceptDir
  modifies seen, skipped, entered
  ensures [the result is a file outside of the temporary folder] err == nil && p != "" ==> isFile(p)
  ensures [the reported size is its size] err == nil && p != "" ==> n == sizeOf(infoAt(p))
  ensures [no file is larger] err == nil && exists ==> isFile(p) && sizeOf(infoAt(p)) >= sizeOf(infoAt(victim))
  walk
    assume $path != ""
    assume $err == nil ==> $info != nil && $info == infoAt($path)
    assume exists && ($path == victim || above($path)) ==> $err == nil
    assume exists && $path == victim ==> !isDir($info)
    assume exists && above($path) ==> isDir($info) && nameOf($info) != except
    assume isTmpDir($path) && $err == nil ==> isDir($info) && nameOf($info) == except
    assume inTmp($path) ==> entered
    set seen := seen || $path == victim
    set skipped := skipped || $skipAll || $skipDir && (exists && above($path) || $err != nil || !isDir($info))
    set entered := entered || isTmpDir($path) && $err == nil && $ret == nil
    invariant !skipped && !entered
    invariant currentLargestFile == nil ==> currentLargestFilePath == ""
    invariant currentLargestFile != nil ==> isFile(currentLargestFilePath) && currentLargestFile == infoAt(currentLargestFilePath)
    invariant any(p string) p != "" ==> isFile(p)
    invariant any(p string, n int64) p != "" ==> n == sizeOf(infoAt(p))
    invariant any(i io/fs.FileInfo, n int64) i != nil ==> n == sizeOf(i)
    invariant any(p string) exists && seen ==> p != "" && sizeOf(infoAt(p)) >= sizeOf(infoAt(victim))
    invariant exists && seen ==> currentLargestFile != nil && sizeOf(currentLargestFile) >= sizeOf(infoAt(victim))
    exit exists ==> seen || skipped

func util.OsFilesystem.FindLruFile(fs, path, exceptDir) (err, n, p)
  requires !seen && !skipped && !entered && except == exceptDir
  modifies seen, skipped, entered
  ensures [the result is a file outside of the temporary folder] err == nil && p != "" ==> isFile(p)
  ensures [the reported size is its size] err == nil && p != "" ==> n == sizeOf(infoAt(p))
  ensures [no file was used earlier] err == nil && exists ==> isFile(p) && !before(modTime(infoAt(victim)), modTime(infoAt(p)))
  walk
    assume $path != ""
    assume $err == nil ==> $info != nil && $info == infoAt($path)
    assume exists && ($path == victim || above($path)) ==> $err == nil
    assume exists && $path == victim ==> !isDir($info)
    assume exists && above($path) ==> isDir($info) && nameOf($info) != except
    assume isTmpDir($path) && $err == nil ==> isDir($info) && nameOf($info) == except
    assume inTmp($path) ==> entered
    set seen := seen || $path == victim
    set skipped := skipped || $skipAll || $skipDir && (exists && above($path) || $err != nil || !isDir($info))
    set entered := entered || isTmpDir($path) && $err == nil && $ret == nil
    invariant !skipped && !entered
    invariant currentLruFile == nil ==> currentLruFilePath == ""
    invariant currentLruFile != nil ==> isFile(currentLruFilePath) && currentLruFile == infoAt(currentLruFilePath)
    invariant any(p string) p != "" ==> isFile(p)
    invariant any(p string, n int64) p != "" ==> n == sizeOf(infoAt(p))
    invariant any(p string, t time.Time) p != "" ==> t == modTime(infoAt(p))
    invariant any(i io/fs.FileInfo, n int64) i != nil ==> n == sizeOf(i)
    invariant any(i io/fs.FileInfo, t time.Time) i != nil ==> t == modTime(i)
    invariant any(p string) exists && seen ==> p != "" && !before(modTime(infoAt(victim)), modTime(infoAt(p)))
    invariant exists && seen ==> currentLruFile != nil && !before(modTime(infoAt(victim)), modTime(currentLruFile))
    exit exists ==> seen || skipped

# the cache removes exactly what the search of the configured strategy found
ghost found string
ghost foundKind string
ghost temp string
pure extern util.FileLike.Name(f) (r) as fileName
verify cache.CacheToFile

extern sync.Mutex.Lock(m)
extern sync.Mutex.Unlock(m)
extern io.Copy(dst, src) (n, err)
extern util.FileLike.Close(f) (err)
extern util.FileLike.Stat(f) (info, err)
extern util.Filesystem.MkdirAll(fs, path) (err)
extern util.Filesystem.DirSizeInBytes(fs, path) (err, n)
extern util.Filesystem.GetSizeInBytes(fs, path) (n, err)
extern util.Filesystem.Rename(fs, from, to) (err)
extern util.Filesystem.CreateTemp(fs, dir, pattern) (f, err)
  requires [temporary files are in the temporary folder] dir == join(config.Current.CacheDir, ".tmp")
  modifies temp
  ensures err == nil ==> f != nil && fileName(f) == temp
extern util.Filesystem.FindLargestFile(fs, path, exceptDir) (err, n, p)
  requires [searches the cache without the temporary folder] path == config.Current.CacheDir && exceptDir == ".tmp"
  modifies found, foundKind
  ensures found == p && foundKind == "largest"
extern util.Filesystem.FindLruFile(fs, path, exceptDir) (err, n, p)
  requires [searches the cache without the temporary folder] path == config.Current.CacheDir && exceptDir == ".tmp"
  modifies found, foundKind
  ensures found == p && foundKind == "lru"
extern util.Filesystem.Remove(fs, path) (err)
  requires [removes only what the search of the configured strategy found] path == temp || path == found && foundKind == config.Current.CacheEvictionStrategy

func cache.CacheToFile(cacheFolderName, filename, reader) (r, err)
  modifies found, foundKind, temp
