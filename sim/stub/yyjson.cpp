#include "yyjson.h"

#include <string.h>

#include <string>
#include <utility>
#include <vector>

#include "../core.h"

struct yyjson_val {
  char kind;  // n l (null/literal/number text) s a o
  std::string text;
  std::vector<yyjson_val*> arr;
  std::vector<std::pair<std::string, yyjson_val*>> obj;
};

namespace {
struct P {
  const char* s;
  size_t n, i;
  bool bad;
  void ws() {
    while (i < n && strchr(" \t\r\n", s[i])) i++;
  }
  std::string str() {
    std::string o;
    i++;
    while (i < n && s[i] != '"') {
      if (s[i] == '\\' && i + 1 < n) o += s[i++];
      o += s[i++];
    }
    if (i >= n) bad = true;
    i++;
    return o;
  }
  yyjson_val* val() {
    ws();
    yyjson_val* v = new yyjson_val();
    if (i >= n || bad) {
      bad = true;
      return v;
    }
    char c = s[i];
    if (c == '{') {
      v->kind = 'o';
      i++;
      for (ws(); i < n && s[i] != '}' && !bad; ws()) {
        if (s[i] != '"') {
          bad = true;
          break;
        }
        std::string k = str();
        ws();
        if (i >= n || s[i] != ':') {
          bad = true;
          break;
        }
        i++;
        v->obj.push_back({k, val()});
        ws();
        if (i < n && s[i] == ',') i++;
        else if (i < n && s[i] != '}') bad = true;
      }
      if (i >= n) bad = true;
      i++;
    } else if (c == '[') {
      v->kind = 'a';
      i++;
      for (ws(); i < n && s[i] != ']' && !bad; ws()) {
        v->arr.push_back(val());
        ws();
        if (i < n && s[i] == ',') i++;
        else if (i < n && s[i] != ']') bad = true;
      }
      if (i >= n) bad = true;
      i++;
    } else if (c == '"') {
      v->kind = 's';
      v->text = str();
    } else {
      v->kind = 'l';
      while (i < n && (isalnum((unsigned char)s[i]) || strchr("+-.", s[i]))) v->text += s[i++];
      if (v->text.empty()) bad = true;
      if (v->text == "null") v->kind = 'n';
    }
    return v;
  }
};
yyjson_val* merge(yyjson_val* o, yyjson_val* p) {
  if (p->kind != 'o') return p;
  yyjson_val* r = new yyjson_val();
  r->kind = 'o';
  if (o && o->kind == 'o') {
    for (auto& e : o->obj) {
      bool in = false;
      for (auto& q : p->obj) in |= q.first == e.first;
      if (!in) r->obj.push_back(e);
    }
  } else {
    o = nullptr;
  }
  for (auto& q : p->obj) {
    if (q.second->kind == 'n') continue;
    yyjson_val* old = nullptr;
    if (o)
      for (auto& e : o->obj)
        if (e.first == q.first) old = e.second;
    r->obj.push_back({q.first, merge(old, q.second)});
  }
  return r;
}
void put(yyjson_val* v, std::string& o) {
  switch (v->kind) {
    case 'o': {
      o += '{';
      bool first = true;
      for (auto& e : v->obj) {
        if (!first) o += ',';
        first = false;
        o += '"' + e.first + "\":";
        put(e.second, o);
      }
      o += '}';
      break;
    }
    case 'a': {
      o += '[';
      bool first = true;
      for (auto& e : v->arr) {
        if (!first) o += ',';
        first = false;
        put(e, o);
      }
      o += ']';
      break;
    }
    case 's':
      o += '"' + v->text + '"';
      break;
    default:
      o += v->text;
  }
}
}  // namespace

extern "C" {
size_t yyjson_read_max_memory_usage(size_t len, yyjson_read_flag) { return len * 12 + 256; }
int yyjson_alc_pool_init(yyjson_alc* a, void* buf, size_t size) {
  a->mem = (char*)buf;
  a->size = size;
  a->used = 0;
  return 1;
}
yyjson_doc* yyjson_read_opts(char* d, size_t n, yyjson_read_flag, const yyjson_alc*, yyjson_read_err* err) {
  sim::KGuard k;
  P p{d, n, 0, false};
  yyjson_doc* doc = new yyjson_doc();
  doc->root = p.val();
  p.ws();
  err->code = 0;
  err->msg = "";
  err->pos = 0;
  if (p.bad || p.i != n) {
    err->code = 1;
    err->msg = "parse error";
    return nullptr;
  }
  return doc;
}
yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc*) {
  sim::KGuard k;
  return new yyjson_mut_doc();
}
yyjson_mut_val* yyjson_merge_patch(yyjson_mut_doc*, yyjson_val* o, yyjson_val* p) {
  sim::KGuard k;
  return merge(o, p);
}
char* yyjson_mut_write_opts(const yyjson_mut_doc* doc, yyjson_write_flag, const yyjson_alc* alc, size_t* len, yyjson_write_err* err) {
  sim::KGuard k;
  std::string s;
  put(doc->root, s);
  err->code = 0;
  err->msg = "";
  if (s.size() + 1 > alc->size) {
    err->code = 2;
    err->msg = "out of memory";
    return nullptr;
  }
  memcpy(alc->mem, s.c_str(), s.size() + 1);
  *len = s.size();
  return alc->mem;
}
void yyjson_mut_doc_free(yyjson_mut_doc*) {}
}
