#pragma once
namespace rapidjson { class StringBuffer; }
