// Stand-in for the part of jsoncpp's Json::Value that the EVM serialisation code uses.
#ifndef VERIF_JSON_H
#define VERIF_JSON_H
#include <map>
#include <string>
#include <vector>
namespace Json {
    enum ValueType { nullValue, intValue, stringValue, arrayValue, objectValue };
    class Value {
      public:
        Value(ValueType t = nullValue) : m_type(t) {}
        Value(const char* s) : m_type(stringValue), m_str(s) {}
        Value(const std::string& s) : m_type(stringValue), m_str(s) {}
        Value(int v) : m_type(intValue), m_int(v) {}
        bool isString() const { return m_type == stringValue; }
        bool isNumeric() const { return m_type == intValue; }
        bool isArray() const { return m_type == arrayValue; }
        bool isObject() const { return m_type == objectValue; }
        // As in jsoncpp: only null, an empty array and an empty object are empty.
        bool empty() const {
            return m_type == nullValue || (m_type == arrayValue && m_arr.empty()) || (m_type == objectValue && m_obj.empty());
        }
        std::string asString() const { return m_str; }
        int asInt() const { return m_int; }
        size_t size() const { return m_type == arrayValue ? m_arr.size() : m_obj.size(); }
        Value& operator[](const char* k) {
            m_type = objectValue;
            return m_obj[k];
        }
        const Value& operator[](const char* k) const {
            static const Value none;
            auto it = m_obj.find(k);
            return it == m_obj.end() ? none : it->second;
        }
        Value& operator[](int i) { return m_arr[static_cast<size_t>(i)]; }
        Value& append(const Value& v) {
            m_type = arrayValue;
            m_arr.push_back(v);
            return m_arr.back();
        }

      private:
        ValueType m_type;
        int m_int{0};
        std::string m_str;
        std::vector<Value> m_arr;
        std::map<std::string, Value> m_obj;
    };
}
#endif
