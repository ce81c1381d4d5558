property C06
use cachepath
strict

ghost target string
ghost statted bool
ghost statErr error
ghost statInfo io/fs.FileInfo
ghost firstNow time.Time
ghost lastNow time.Time
ghost asked bool       # the time has been read
ghost removed bool     # the removal of the file was requested ...
ghost removeErr error
ghost touched bool     # its timestamps have been refreshed
ghost locked bool

pure extern time.Time.Sub(t, u) (r) as since
pure extern time.Duration.Minutes(d) (r) as minutes
axiom minutesOf(d time.Duration)
  note "minutes are nanoseconds divided by 6e10, as real numbers"
  ensures minutes(d) * real(60000000000) == real(d)
  trigger minutes(d)
pure extern time.Duration.Seconds(d) (r) as seconds
axiom secondsOf(d time.Duration)
  ensures seconds(d) * real(1000000000) == real(d)
  trigger seconds(d)
pure extern time.Duration.Hours(d) (r) as hours
axiom hoursOf(d time.Duration)
  ensures hours(d) * real(3600000000000) == real(d)
  trigger hours(d)
pure extern io/fs.FileInfo.ModTime(i) (r) as modTime
pure extern os.IsNotExist(e) (r) as notExist
axiom nilExists()
  ensures !notExist(nil)

# age in whole minutes
spec age() int = truncdiv(since(firstNow, modTime(statInfo)), 60000000000)
spec outdated() bool = age() > config.Current.CacheMaxAge

verify cache.GetFile

extern sync.Mutex.Lock(m)
  requires [no deadlock] !locked
  modifies locked
  set locked := true
extern sync.Mutex.Unlock(m)
  requires locked
  modifies locked
  set locked := false
extern time.Now() (r)
  modifies firstNow, lastNow, asked
  ensures firstNow == ite(old(asked), old(firstNow), r) && lastNow == r && asked
extern time.Since(t) (r)
  modifies firstNow, lastNow, asked
  ensures firstNow == ite(old(asked), old(firstNow), lastNow) && r == since(lastNow, t) && asked
extern util.Filesystem.Stat(fs, path) (info, err)
  requires [looks at the file] path == target && locked && !statted
  modifies statted, statErr, statInfo
  ensures statted && statErr == err && statInfo == info
extern util.Filesystem.Remove(fs, path) (err)
  requires [removes only the outdated file] path == target && locked && statted && statErr == nil && outdated()
  modifies removed, removeErr
  ensures removed && removeErr == err
extern util.Filesystem.Chtimes(fs, path, atime, mtime) (err)
  requires [refreshes this file to the current time] path == target && locked && atime == lastNow && mtime == lastNow
  requires [only for the strategy lru] config.Current.CacheEvictionStrategy == "lru"
  modifies touched
  ensures touched

func cache.GetFile(cacheFolderName, filename) (path, usable, err)
  requires target == cachePath(cacheFolderName, filename) && !statted && !asked && !removed && !touched && !locked
  modifies statted, statErr, statInfo, firstNow, lastNow, asked, removed, removeErr, touched, locked
  ensures [path of the file] path == target
  ensures [a missing file is not an error] statted && notExist(statErr) ==> !usable && err == nil
  ensures [unknown state is an error] statted && statErr != nil && !notExist(statErr) ==> !usable && err != nil
  ensures [a fresh file is used] statErr == nil && !outdated() ==> usable && err == nil && !removed
  ensures [an outdated file is not used] statErr == nil && outdated() ==> !usable && removed
  ensures [a failing removal is an error] removed && removeErr != nil ==> err != nil
  ensures [a successful removal is none] removed && removeErr == nil ==> err == nil
  ensures [errors are never usable] err != nil ==> !usable
  ensures [always looks at the file] statted
  ensures [a used file is refreshed] usable && config.Current.CacheEvictionStrategy == "lru" ==> touched
  ensures [the lock is released] !locked
