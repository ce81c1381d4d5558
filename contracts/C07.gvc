property C07
strict

ghost url string
ghost folder string
ghost name string
ghost data string
ghost method string
ghost asked bool                  # a request has been sent
ghost request *net/http.Request
ghost usedBody io.ReadCloser      # the request body that has been consumed
ghost last *net/http.Response     # latest response
ghost lastErr error
ghost bodyErr error
ghost mustWait bool               # it was a 429 and nobody waited yet
ghost cached bool
ghost cacheErr error
ghost cachedPath string
ghost stored bool
ghost storeErr error
ghost storedPath string
ghost createErr error

pure extern net/http.Header.Get(h, k) (r) as header
pure extern strconv.Atoi(s) (n, err) as atoi, atoiErr
pure extern strings.NewReader(s) (r) as newReader

spec ok(r *net/http.Response) bool = r != nil && r.StatusCode == 200 && header(r.Header, "mediawiki-api-error") == ""
spec retry(r *net/http.Response) int = ite(atoiErr(header(r.Header, "Retry-After")) == nil, atoi(header(r.Header, "Retry-After")), 2)

verify http.DefaultHttpService.doRequest, http.DefaultHttpService.DownloadAndCache, http.DefaultHttpService.PostFormEncoded

extern http.HttpClient.Do(c, req) (resp, err)
  requires [waits before the request is repeated] !mustWait
  requires [repeats the same request] !asked || req == request
  requires [sends the whole request body again] req.Body == nil || req.Body != usedBody
  modifies asked, request, usedBody, last, lastErr, mustWait
  ensures asked && request == req && usedBody == req.Body && last == resp && lastErr == err
  ensures err == nil ==> resp != nil
  ensures mustWait == (err == nil && resp.StatusCode == 429)
extern time.Sleep(d)
  requires [waits as long as the service asked for] mustWait && d == retry(last) * 1000000000
  modifies mustWait
  ensures !mustWait
extern net/http.NewRequest(m, u, body) (r, err)
  requires [asks for this resource] u == url && m == method
  requires [with this form data] m == "POST" ==> body == box(newReader(data))
  modifies createErr
  ensures createErr == err
  ensures err == nil ==> r != nil && fresh(r) && (body == nil ==> r.Body == nil) && (body != nil ==> r.Body != nil && r.GetBody != nil)
extern net/http.Request.GetBody() (r, err)
  note "every call delivers a new reader of the whole body"
  modifies bodyErr
  ensures bodyErr == err
  ensures err == nil ==> r != usedBody
extern net/http.Header.Set(h, k, v)
extern util.ReaderToString(r) (s)
extern io.ReadCloser.Close(r) (err)
extern cache.GetFile(f, n) (path, usable, err)
  note "verified as property C06"
  requires [looks for the requested file] f == folder && n == name
  modifies cached, cacheErr, cachedPath
  ensures cached == usable && cacheErr == err && cachedPath == path
extern cache.CacheToFile(f, n, reader) (path, err)
  note "verified as properties C03 and C04"
  requires [stores under the requested name] f == folder && n == name
  requires [stores only the body of an accepted response] asked && lastErr == nil && ok(last) && reader == last.Body && !stored
  modifies stored, storeErr, storedPath
  ensures stored && storeErr == err && storedPath == path

func http.DefaultHttpService.doRequest(d, u, req) (r, err)
  requires !asked && !mustWait && usedBody == nil && bodyErr == nil
  requires req != nil && (req.Body == nil || req.GetBody != nil)
  modifies asked, request, usedBody, last, lastErr, mustWait, bodyErr, req.Body
  ensures [sends the request] asked
  ensures [only accepted responses are returned] err == nil ==> r == last && lastErr == nil && ok(r)
  ensures [an accepted response is no error] err != nil ==> r == nil && (lastErr != nil || bodyErr != nil || !ok(last))
  loop 1
    invariant asked ==> request == req
    invariant !mustWait
    invariant req.Body == nil || req.GetBody != nil
    invariant req.Body == nil || req.Body != usedBody
    invariant bodyErr == nil

func http.DefaultHttpService.DownloadAndCache(d, u, cacheFolderName, filename) (path, fresh, err)
  requires u == url && cacheFolderName == folder && filename == name && method == "GET"
  requires !asked && !mustWait && !stored && usedBody == nil && bodyErr == nil && createErr == nil
  modifies asked, request, usedBody, last, lastErr, mustWait, bodyErr, cached, cacheErr, cachedPath, stored, storeErr, storedPath, createErr
  ensures [a cached file needs no request] cacheErr == nil && cached ==> !asked && !stored && path == cachedPath && !fresh && err == nil
  ensures [an unknown cache state is an error] cacheErr != nil ==> err != nil && !asked && !stored
  ensures [a failed download stores nothing] asked && (lastErr != nil || !ok(last)) ==> !stored && err != nil
  ensures [success means stored] err == nil && !(cacheErr == nil && cached) ==> stored && storeErr == nil && path == storedPath && fresh
  ensures [an accepted response is stored] createErr == nil && cacheErr == nil && !cached && bodyErr == nil && lastErr == nil && ok(last) ==> asked && (last.Body != nil ==> stored)
  ensures [storing it can only fail in the cache] stored ==> (err == nil) == (storeErr == nil)

func http.DefaultHttpService.PostFormEncoded(d, u, requestData) (r, err)
  requires u == url && requestData == data && method == "POST"
  requires !asked && !mustWait && usedBody == nil && bodyErr == nil && createErr == nil
  modifies asked, request, usedBody, last, lastErr, mustWait, bodyErr, createErr
  ensures [only accepted responses are returned] err == nil ==> asked && r == last && lastErr == nil && ok(r)
  ensures [an accepted response is no error] err != nil ==> createErr != nil || lastErr != nil || bodyErr != nil || !ok(last)
