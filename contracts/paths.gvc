# File paths: assumed facts about the standard library and the verified helpers of package util.
pure extern path/filepath.IsAbs(p) (r) as isAbs
pure extern path/filepath.Abs(p) (r, err) as absp, absErr
  note "the working directory does not change while the program runs"
pure extern path/filepath.Join(e) (r) as join
pure extern path/filepath.Dir(p) (r) as dir
pure extern path/filepath.Base(p) (r) as base
pure extern path/filepath.Ext(p) (r) as ext

axiom emptyIsRelative()
  ensures !isAbs("")
axiom absIsAbsolute(p string)
  ensures absErr(p) == nil ==> isAbs(absp(p))
  trigger absp(p)
axiom dirOfAbsolute(p string)
  ensures isAbs(p) ==> isAbs(dir(p))
  trigger dir(p)
axiom joinBelowAbsolute(a string, b string)
  ensures isAbs(a) ==> isAbs(join(a, b)) && absErr(join(a, b)) == nil && absp(join(a, b)) == join(a, b)
  trigger join(a, b)
# the absolute form of a path: empty and absolute paths are kept
spec abs(p string) string = ite(p == "" || isAbs(p), p, absp(p))
spec resolve(d string, p string) string = ite(p == "" || isAbs(p), p, join(d, p))

func util.ToAbsolutePath(path) (r, err)
  ensures [keeps empty and absolute paths, makes others absolute] err == nil ==> r == abs(path)
  ensures [the result is absolute] err == nil && path != "" ==> isAbs(r)

func util.ToAbsolutePathWithBasedir(basedir, path) (r, err)
  requires isAbs(basedir)
  ensures [resolves relative paths against the base directory] err == nil ==> r == resolve(basedir, path)

func util.ToAbsolutePaths(paths) (r, err)
  ensures [one result per path] err == nil ==> len(r) == len(paths)
  ensures [every path is made absolute] err == nil ==> (forall i in 0 .. len(paths): r[i] == abs(paths[i]))
  ensures [the results are absolute] err == nil ==> (forall i in 0 .. len(paths): paths[i] == "" || isAbs(r[i]))
  loop 1
    invariant len(result) == len(paths)
    invariant forall j in 0 .. $idx: result[j] == abs(paths[j])
    invariant forall j in 0 .. $idx: paths[j] == "" || isAbs(result[j])
