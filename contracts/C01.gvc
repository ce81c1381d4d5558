property C01
use paths
use sanitize
strict

# a character no cached file may have in its name
spec bad(d string) bool = len(d) == 1 && contains("/\\<>:\"|?*", d)
# a name that is exactly one path component, without problematic characters
spec clean(c string) bool = c != "" && c != "." && c != ".." && !contains(c, "/") && !contains(c, "\\") && !contains(c, "<") && !contains(c, ">") &&
  !contains(c, ":") && !contains(c, "\"") && !contains(c, "|") && !contains(c, "?") && !contains(c, "*")
spec usual(s string) bool = s != "" && s != "." && s != ".."

lemma encodedIsClean(c string, d string)
  requires len(c) == 1 && bad(d)
  ensures !contains(enc10(c), d)
lemma sanitizedIsClean(s string, d string)
  requires bad(d)
  ensures !contains(sanitized(s), d)
  induct s
  by sanEmpty()
  by sanStep10(s)
  by encodedIsClean(s[0:1], d)
  hide rep, decode
lemma componentStays(s string)
  requires usual(s)
  ensures usual(sanitized(s))
  by reversible(s)
  hide rep
lemma usualBecomesClean(s string)
  requires usual(s)
  ensures clean(sanitized(s))
  by componentStays(s)
  by sanitizedIsClean(s, "/")
  by sanitizedIsClean(s, "\\")
  by sanitizedIsClean(s, "<")
  by sanitizedIsClean(s, ">")
  by sanitizedIsClean(s, ":")
  by sanitizedIsClean(s, "\"")
  by sanitizedIsClean(s, "|")
  by sanitizedIsClean(s, "?")
  by sanitizedIsClean(s, "*")
  hide rep, decode
  trigger sanitized(s)

verify util.SanitizeFilename
func util.SanitizeFilename(filename) (r)
  ensures [every special character is encoded and nothing else is changed] r == sanitized(filename)
  ensures [no character that is special in paths is left] usual(filename) ==> clean(sanitized(filename)) && clean(r)

# ---- the paths the cache works with
ghost folder string    # the cache folder of this operation
ghost tmp util.FileLike
ghost victim string    # the file the search for an evictable file returned

spec below(p string, parent string) bool = dir(p) == parent && clean(base(p))
axiom joinAddsOneComponent(a string, b string, c string)
  note "joining a folder with a single component yields a path in exactly this folder"
  ensures join(a, b) != "" && clean(c) ==> dir(join(a, b, c)) == join(a, b) && base(join(a, b, c)) == c
  trigger join(a, b, c)
axiom joinOfJoin(a string, b string, c string)
  ensures join(join(a, b), c) == join(a, b, c)
  trigger join(join(a, b), c)
axiom joinAddsOneComponent2(a string, c string)
  ensures a != "" && clean(c) ==> base(join(a, c)) == c
  trigger join(a, c)

pure extern util.FileLike.Name(f) (r) as nameOf
extern util.Filesystem.MkdirAll(fs, path) (err)
  requires [the folder of the cache] path == join(config.Current.CacheDir, folder)
extern util.Filesystem.CreateTemp(fs, dir, pattern) (f, err)
  requires [a temporary file directly in the temporary folder] dir == join(config.Current.CacheDir, ".tmp") && clean(pattern)
  modifies tmp
  ensures err == nil ==> f != nil && tmp == f
extern util.Filesystem.Rename(fs, from, to) (err)
  requires [the temporary file] from == nameOf(tmp)
  requires [to a sanitised file of this folder] below(to, join(config.Current.CacheDir, folder))
extern util.Filesystem.Remove(fs, path) (err)
  requires [the temporary file, the file to evict or a sanitised file of this folder] path == nameOf(tmp) || path == victim || below(path, join(config.Current.CacheDir, folder))
extern util.Filesystem.DirSizeInBytes(fs, path) (err, n)
  requires path == config.Current.CacheDir
extern util.Filesystem.FindLargestFile(fs, path, except) (err, n, p)
  requires [searches the cache without the temporary folder] path == config.Current.CacheDir && except == ".tmp"
  modifies victim
  set victim := p
extern util.Filesystem.FindLruFile(fs, path, except) (err, n, p)
  requires [searches the cache without the temporary folder] path == config.Current.CacheDir && except == ".tmp"
  modifies victim
  set victim := p
extern util.Filesystem.GetSizeInBytes(fs, path) (n, err)
  requires [a sanitised file of this folder] below(path, join(config.Current.CacheDir, folder))
extern util.Filesystem.Stat(fs, path) (info, err)
  requires [a sanitised file of this folder] below(path, join(config.Current.CacheDir, folder))
extern util.Filesystem.Chtimes(fs, path, atime, mtime) (err)
  requires [a sanitised file of this folder] below(path, join(config.Current.CacheDir, folder))

verify cache.GetFilePathInCache, cache.GetRelativeFilePathInCache, cache.CacheToFile, cache.deleteFilesFromCacheIfNeeded, cache.GetFile
func cache.GetFilePathInCache(cacheFolderName, filename) (r)
  ensures [directly below the cache folder] usual(filename) && join(config.Current.CacheDir, cacheFolderName) != "" ==> below(r, join(config.Current.CacheDir, cacheFolderName))
func cache.GetRelativeFilePathInCache(cacheFolderName, filename) (r)
  ensures [directly below the cache folder] usual(filename) && join(".", cacheFolderName) != "" ==> below(r, join(".", cacheFolderName))
func cache.deleteFilesFromCacheIfNeeded(cacheFolderName, newFileName, newFileSizeInBytes, cacheSizeInBytes) (err)
  requires usual(newFileName) && folder == cacheFolderName && join(config.Current.CacheDir, folder) != ""
  modifies victim
  loop 1
    invariant true
func cache.CacheToFile(cacheFolderName, filename, reader) (r, err)
  requires usual(filename) && folder == cacheFolderName && join(config.Current.CacheDir, folder) != ""
  modifies tmp, victim
  ensures [reports a path directly below the cache folder] below(r, join(config.Current.CacheDir, cacheFolderName))
func cache.GetFile(cacheFolderName, filename) (r, usable, err)
  requires usual(filename) && folder == cacheFolderName && join(config.Current.CacheDir, folder) != ""
  ensures [reports a path directly below the cache folder] below(r, join(config.Current.CacheDir, cacheFolderName))
extern sync.Mutex.Lock(m)
extern sync.Mutex.Unlock(m)
extern io.Copy(dst, src) (n, err)
extern time.Now() (r)
extern util.FileLike.Close(f) (err)
extern util.FileLike.Stat(f) (info, err)
extern util.FileLike.Write(f, b) (n, err)
