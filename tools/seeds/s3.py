BUGS=[
dict(id="C13-filter-datetime", property="C13",
 edits=[("mml/tools/data_loader/DataLoaderTypes.h","""							if (srcCol.type == ColumnType::DATETIME) {
								newCol.timeData.reserve(result.rowCount);
								for (size_t idx : keepIndices)
									newCol.timeData.push_back(srcCol.timeData[idx]);
							}""","""							if (srcCol.type == ColumnType::DATETIME) {
								newCol.timeData.assign(srcCol.timeData.begin(), srcCol.timeData.begin() + static_cast<std::ptrdiff_t>(result.rowCount));
							}""")],
 needs="filtering rows of a dataset with a date-time column so that an early row is dropped",
 breaks="the time part of the kept rows comes from other rows",
 demo=r'''
#include "mml/tools/DataLoader.h"
using namespace MML::Data;
int main(){ Dataset d=LoadFromCSVString("id,t\n1,2024-01-01 10:00\n2,2024-01-02 11:30\n3,2024-01-03 12:45\n"); Dataset f=d.FilterRows("id",[](const std::string&s){return s!="1";});
 return f.NumRows()==2 && f["t"].GetAsString(0)=="2024-01-02 11:30" && f["t"].GetAsString(1)=="2024-01-03 12:45" ? 0 : 1; }'''),
dict(id="C13-json-datetime", property="C13",
 edits=[("mml/tools/data_loader/DataLoaderJSON.h","""size_t sep = strVal.find_first_of("T ");""","""size_t sep = strVal.find(strVal[4] == '-' ? 'T' : ' ');""")],
 needs="a JSON date-time value written with dashes and a space (or slashes and a T)",
 breaks="the whole value lands in the date part and the time part is empty",
 demo=r'''
#include "mml/tools/DataLoader.h"
using namespace MML::Data;
int main(){ Dataset d=LoadFromJSONString("[{\"t\":\"2024-01-01 10:00\"},{\"t\":\"2024/01/02T11:30\"}]");
 return d["t"].dateData[0]=="2024-01-01" && d["t"].timeData[0]=="10:00" && d["t"].timeData[1]=="11:30" ? 0 : 1; }'''),
dict(id="C13-bool-missing", property="C13",
 edits=[("mml/tools/data_loader/DataLoaderCSV.h","""							col.boolData[rowIdx] = parsed ? boolVal : false;
							break;
						case ColumnType::STRING:
							col.stringData[rowIdx] = parsed ? strVal : "";
							break;
						case ColumnType::DATE:
							col.dateData.resize(dataset.rowCount);
							col.dateData[rowIdx] = parsed ? strVal : "";
							break;
						case ColumnType::TIME:
							col.timeData.resize(dataset.rowCount);
							col.timeData[rowIdx] = parsed ? strVal : "";
							break;
						case ColumnType::DATETIME:
							if (parsed && !strVal.empty()) {
								// Split""","""							col.boolData[rowIdx] = parsed ? boolVal : (rowIdx > 0 ? col.boolData[rowIdx - 1] : false);
							col.missingMask[rowIdx] = !parsed && (c >= row.size() || rowIdx == 0);
							break;
						case ColumnType::STRING:
							col.stringData[rowIdx] = parsed ? strVal : "";
							break;
						case ColumnType::DATE:
							col.dateData.resize(dataset.rowCount);
							col.dateData[rowIdx] = parsed ? strVal : "";
							break;
						case ColumnType::TIME:
							col.timeData.resize(dataset.rowCount);
							col.timeData[rowIdx] = parsed ? strVal : "";
							break;
						case ColumnType::DATETIME:
							if (parsed && !strVal.empty()) {
								// Split""")],
 needs="a CSV file with a boolean column having a missing cell after the first row",
 breaks="the missing boolean silently repeats the previous row's value",
 demo=r'''
#include "mml/tools/DataLoader.h"
using namespace MML::Data;
int main(){ { std::ofstream o("d.csv"); o<<"a,b\n1,true\n2,NA\n3,false\n"; } Dataset d=LoadCSV("d.csv"); return d["b"].IsMissing(1) && !d["b"].IsMissing(0) ? 0 : 1; }'''),
]
