PROP = 'D04'
EDITS = [('include/bss-util/JSON.h', 'while(!!s && isspace(s.peek())) s.get();', "while(!!s && (s.peek() == ' ' || s.peek() == '\\t' || s.peek() == '\\n')) s.get();")]
NEEDS = 'a document with \\\\r\\\\n line ends'
BREAKS = 'values behind a carriage return are not read'
FLAGS = '-fpermissive -w'
LIBS = '"$R"/bss-util/bss_util.cpp "$R"/bss-util/ConvertUTF.c -Wl,--unresolved-symbols=ignore-all -lpthread'
DEMO = r'''
#include "bss-util/JSON.h"
using namespace bss;
int main() { JSONValue v; ParseJSON(v, "{\r\n  \"a\": [ 1,\r\n 2 ],\r\n \"b\":\r\n true }"); if(!v.is<JSONValue::JSONObject>()) return 1; auto& o = v.get<JSONValue::JSONObject>(); return o.Length() == 2 && o[0].second.is<JSONValue::JSONArray>() && o[0].second.get<JSONValue::JSONArray>().Length() == 2 && o[1].second.is<bool>() ? 0 : 1; }
'''
