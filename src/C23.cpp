// C23: reading configuration values from JSON
#include <json/json.h>
#include <trajopt_common/macros.h>
#include <trajopt_common/logging.hpp>
#include <trajopt/json_marshal.hpp>

#include "pbt.h"

PBT_PROPERTY("C23",
             "Cases: a JSON document generated with values of every type in objects and lists, read member by member as every type: as its "
             "own type, as a type it is not, present or missing, with and without a default, lists of every length. Non-trivial: the "
             "document holds a list, or the value is not of the type asked for.");

using namespace json_marshal;

namespace
{
// A value that knows how to read itself
struct Point
{
  double x{ 0 };
  std::string tag;
  std::vector<int> n;
  void fromJson(const Json::Value& v)
  {
    childFromJson(v, x, "x");
    childFromJson(v, tag, "tag", std::string("none"));
    childFromJson(v, n, "n", std::vector<int>());
  }
  bool operator==(const Point& o) const { return x == o.x && tag == o.tag && n == o.n; }
};
// through text, as a user's file is
Json::Value reread(pbt::Gen& g, const Json::Value& v)
{
  if (g.boolean())
    return v;
  Json::Value box(Json::arrayValue);
  box.append(v);
  Json::StreamWriterBuilder b;
  b["precision"] = 17;
  const std::string text = Json::writeString(b, box);
  Json::CharReaderBuilder rb;
  std::istringstream in(text);
  Json::Value out;
  std::string err;
  CHECK(Json::parseFromStream(rb, in, &out, &err), << err);
  return out[0];
}
std::string genText(pbt::Gen& g)
{
  static const std::string c = "ab Z0.\"\\/\n{}[],:%s";
  std::string s;
  for (int n = g.range(0, 6); n > 0; --n)
    s += c[g.index(c.size())];
  return s;
}
double genDouble(pbt::Gen& g)
{
  static const std::vector<double> special{ 1e300, -1e300, 1e-300, 0.1, 1.0 / 3, -0.0, 2147483648.0, 9007199254740993.0, 4.9e-324 };
  return g.chance(1, 4) ? g.pick(special) : g.num(1e4);
}
int genInt(pbt::Gen& g)
{
  static const std::vector<int> special{ std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), -1, 1 << 30 };
  return g.chance(1, 4) ? g.pick(special) : g.range(-50, 50);
}
template <class T>
struct Of
{
  T value;
  Json::Value json;
};
Of<bool> gen(pbt::Gen& g, bool*)
{
  const bool b = g.boolean();
  return { b, Json::Value(b) };
}
Of<int> gen(pbt::Gen& g, int*)
{
  const int i = genInt(g);
  return { i, Json::Value(i) };
}
Of<double> gen(pbt::Gen& g, double*)
{
  if (g.chance(1, 4))  // a number written without a fraction
  {
    const int i = genInt(g);
    return { static_cast<double>(i), Json::Value(i) };
  }
  const double d = genDouble(g);
  return { d, Json::Value(d) };
}
Of<std::string> gen(pbt::Gen& g, std::string*)
{
  const std::string s = genText(g);
  return { s, Json::Value(s) };
}
template <int N>
Of<Eigen::Matrix<double, N, 1>> genVector(pbt::Gen& g)
{
  Of<Eigen::Matrix<double, N, 1>> o{ {}, Json::Value(Json::arrayValue) };
  for (int i = 0; i < N; ++i)
  {
    const auto d = gen(g, static_cast<double*>(nullptr));
    o.value[i] = d.value;
    o.json.append(d.json);
  }
  return o;
}
Of<Eigen::Vector3d> gen(pbt::Gen& g, Eigen::Vector3d*) { return genVector<3>(g); }
Of<Eigen::Vector4d> gen(pbt::Gen& g, Eigen::Vector4d*) { return genVector<4>(g); }
template <class T>
Of<std::vector<T>> gen(pbt::Gen& g, std::vector<T>*)
{
  Of<std::vector<T>> o{ {}, Json::Value(Json::arrayValue) };
  for (int n = g.range(0, 5); n > 0; --n)
  {
    const auto e = gen(g, static_cast<T*>(nullptr));
    o.value.push_back(e.value);
    o.json.append(e.json);
  }
  g.nontrivial();
  return o;
}
Of<Point> gen(pbt::Gen& g, Point*)
{
  Of<Point> o{ {}, Json::Value(Json::objectValue) };
  const auto x = gen(g, static_cast<double*>(nullptr));
  o.value.x = x.value;
  o.json["x"] = x.json;
  o.value.tag = "none";
  if (g.boolean())
  {
    o.value.tag = genText(g);
    o.json["tag"] = o.value.tag;
  }
  if (g.boolean())
  {
    const auto n = gen(g, static_cast<std::vector<int>*>(nullptr));
    o.value.n = n.value;
    o.json["n"] = n.json;
  }
  return o;
}
// What a variable holds before it is read
template <class T>
T old(pbt::Gen& g)
{
  return gen(g, static_cast<T*>(nullptr)).value;
}
template <class T>
void member(pbt::Gen& g, const char* type)
{
  const Of<T> o = gen(g, static_cast<T*>(nullptr));
  Json::Value parent(Json::objectValue);
  const std::string key = g.boolean() ? "value" : "v", other = key == "v" ? "value" : "v";
  parent[key] = o.json;
  if (g.boolean())
    parent["unrelated"] = g.boolean() ? Json::Value("x") : Json::Value(3);
  parent = reread(g, parent);
  g.log() << type << " " << parent << "\n";
  T t = old<T>(g);
  fromJson(parent[key], t);
  CHECK(t == o.value, << "fromJson of a " << type);
  t = old<T>(g);
  childFromJson(parent, t, key.c_str());
  CHECK(t == o.value, << "childFromJson of a " << type);
  t = old<T>(g);
  const T df = old<T>(g);
  childFromJson(parent, t, key.c_str(), df);
  CHECK(t == o.value, << "childFromJson of a " << type << " that is there, with a default");
  t = old<T>(g);
  childFromJson(parent, t, other.c_str(), df);
  CHECK(t == df, << "childFromJson of a " << type << " that is missing, with a default");
  CHECK_THROWS(childFromJson(parent, t, other.c_str()), << "the field is missing");
  g.label(type);
}
}  // namespace

PBT_CASES(members, 60000, 1000000)
{
  switch (g.range(0, 11))
  {
    case 0:
      return member<bool>(g, "bool");
    case 1:
      return member<int>(g, "int");
    case 2:
      return member<double>(g, "double");
    case 3:
      return member<std::string>(g, "string");
    case 4:
      return member<Eigen::Vector3d>(g, "Vector3d");
    case 5:
      return member<Eigen::Vector4d>(g, "Vector4d");
    case 6:
      return member<std::vector<int>>(g, "list of int");
    case 7:
      return member<std::vector<double>>(g, "list of double");
    case 8:
      return member<std::vector<std::string>>(g, "list of string");
    case 9:
      return member<std::vector<Eigen::Vector3d>>(g, "list of Vector3d");
    case 10:
      return member<std::vector<Point>>(g, "list of objects");
    default:
      return member<Point>(g, "object");
  }
}

// A list of the wrong length, or with one element of a wrong type, is not silently taken
PBT_CASES(lists, 40000, 600000)
{
  const int n = g.range(0, 7);
  Json::Value list(Json::arrayValue);
  std::vector<double> want;
  for (int i = 0; i < n; ++i)
  {
    const auto d = gen(g, static_cast<double*>(nullptr));
    want.push_back(d.value);
    list.append(d.json);
  }
  const bool spoil = n > 0 && g.chance(1, 3);
  if (spoil)
    list[static_cast<Json::ArrayIndex>(g.index(static_cast<std::size_t>(n)))] =
        g.boolean() ? Json::Value("one") : (g.boolean() ? Json::Value(Json::arrayValue) : Json::Value(Json::objectValue));
  list = reread(g, list);
  g.log() << list << "\n";
  auto read = [&](auto& t, int size, const char* what) {
    if (n != size || spoil)
    {
      CHECK_THROWS(fromJson(list, t), << what << " from a list of " << n);
    }
    else
    {
      fromJson(list, t);
      for (int i = 0; i < n; ++i)
        CHECK(t[i] == want[static_cast<std::size_t>(i)], << what);
    }
  };
  Eigen::Vector3d v3(9, 9, 9);
  Eigen::Vector4d v4(9, 9, 9, 9);
  read(v3, 3, "Vector3d");
  read(v4, 4, "Vector4d");
  std::vector<double> out(static_cast<std::size_t>(g.range(0, 3)), 9.0);
  if (spoil)
    CHECK_THROWS(fromJson(list, out), << "an element is not a number");
  else
  {
    fromJson(list, out);
    CHECK(out == want);
  }
  const int size = g.range(0, 7);
  std::vector<double> sized(static_cast<std::size_t>(g.range(0, 3)), 9.0);
  if (spoil || size != n)
    CHECK_THROWS(fromJsonArray(list, sized, size), << "a list of " << n << " read as one of " << size);
  else
  {
    fromJsonArray(list, sized, size);
    CHECK(sized == want);
  }
  g.nontrivial();
}

// A value of a type that cannot be what is asked for is reported, at whatever depth
PBT_CASES(wrong_types, 40000, 400000)
{
  Json::Value v;
  const int kind = g.range(0, 3);
  const char* const kinds[] = { "text", "list", "object", "number too large" };
  switch (kind)
  {
    case 0:
      v = Json::Value("t" + genText(g));
      break;
    case 1:
      v = Json::Value(Json::arrayValue);
      for (int n = g.range(1, 3); n > 0; --n)
        v.append(g.range(0, 5));
      break;
    case 2:
      v = Json::Value(Json::objectValue);
      v["x"] = g.range(0, 5);
      break;
    default:
      v = Json::Value((g.boolean() ? 1 : -1) * (g.boolean() ? 1e12 : 2147483648.0 + 1 + g.range(0, 50)));
  }
  v = reread(g, v);
  Json::Value parent(Json::objectValue);
  parent["k"] = v;
  bool b = false;
  int i = 0;
  double d = 0;
  std::string s;
  CHECK_THROWS(fromJson(v, i), << kinds[kind] << " as int");
  CHECK_THROWS(childFromJson(parent, i, "k", 1), << kinds[kind] << " as int, with a default");
  CHECK_THROWS(childFromJson(parent, i, "k"), << kinds[kind] << " as int");
  if (kind != 3)
  {
    CHECK_THROWS(fromJson(v, b), << kinds[kind] << " as bool");
    CHECK_THROWS(fromJson(v, d), << kinds[kind] << " as double");
    CHECK_THROWS(childFromJson(parent, d, "k", 1.0), << kinds[kind] << " as double, with a default");
  }
  if (kind == 1 || kind == 2)
    CHECK_THROWS(fromJson(v, s), << kinds[kind] << " as string");
  if (kind == 0)
  {
    std::vector<double> l;
    Eigen::Vector3d v3;
    CHECK_THROWS(fromJson(v, v3), << "text as Vector3d");
  }
  if (kind == 2)
  {
    Eigen::Vector4d v4;
    CHECK_THROWS(fromJson(v, v4), << "a single member as Vector4d");
  }
  g.label(kinds[kind]);
  g.nontrivial();
}
