// written by tools/gen_p23.py: scopes on many lines of one file, marks and counters with many names
#include <scalopus_tracing/trace_macro.h>

int many_points(int what)
{
  int n = 0;
  switch (what)
  {
    case 0:
#line 1000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1001
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1002
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1003
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1004
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1005
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1006
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1007
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1008
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1009
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1010
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1011
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1012
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1013
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1014
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1015
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1016
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1017
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1018
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1019
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1020
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1021
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1022
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1023
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1024
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1025
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1026
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1027
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1028
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1029
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1030
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1031
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1032
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1033
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1034
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1035
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1036
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1037
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1038
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1039
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1040
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1041
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1042
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1043
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1044
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1045
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1046
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1047
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1048
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1049
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1050
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1051
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1052
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1053
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1054
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1055
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1056
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1057
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1058
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1059
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1060
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1061
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1062
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1063
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1064
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1065
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1066
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1067
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1068
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1069
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1070
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1071
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1072
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1073
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1074
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1075
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1076
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1077
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1078
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1079
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1080
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1081
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1082
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1083
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1084
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1085
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1086
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1087
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1088
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1089
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1090
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1091
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1092
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1093
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1094
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1095
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1096
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1097
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1098
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1099
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1100
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1101
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1102
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1103
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1104
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1105
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1106
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1107
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1108
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1109
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1110
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1111
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1112
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1113
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1114
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1115
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1116
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1117
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1118
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1119
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1120
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1121
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1122
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1123
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1124
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1125
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1126
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1127
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1128
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1129
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1130
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1131
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1132
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1133
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1134
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1135
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1136
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1137
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1138
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1139
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1140
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1141
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1142
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1143
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1144
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1145
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1146
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1147
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1148
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1149
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1150
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1151
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1152
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1153
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1154
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1155
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1156
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1157
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1158
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1159
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1160
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1161
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1162
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1163
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1164
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1165
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1166
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1167
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1168
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1169
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1170
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1171
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1172
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1173
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1174
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1175
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1176
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1177
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1178
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1179
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1180
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1181
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1182
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1183
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1184
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1185
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1186
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1187
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1188
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1189
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1190
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1191
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1192
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1193
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1194
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1195
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1196
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1197
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1198
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1199
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1200
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1201
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1202
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1203
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1204
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1205
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1206
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1207
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1208
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1209
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1210
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1211
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1212
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1213
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1214
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1215
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1216
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1217
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1218
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1219
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1220
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1221
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1222
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1223
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1224
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1225
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1226
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1227
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1228
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1229
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1230
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1231
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1232
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1233
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1234
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1235
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1236
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1237
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1238
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1239
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1240
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1241
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1242
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1243
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1244
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1245
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1246
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1247
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1248
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1249
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1250
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1251
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1252
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1253
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1254
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1255
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1256
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1257
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1258
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1259
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1260
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1261
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1262
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1263
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1264
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1265
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1266
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1267
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1268
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1269
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1270
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1271
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1272
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1273
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1274
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1275
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1276
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1277
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1278
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1279
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1280
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1281
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1282
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1283
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1284
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1285
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1286
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1287
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1288
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1289
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1290
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1291
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1292
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1293
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1294
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1295
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1296
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1297
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1298
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1299
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1511
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1512
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1513
      { TRACE_SCOPE_RAII("s"); n++; }
#line 2000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 2023
      { TRACE_SCOPE_RAII("s"); n++; }
#line 2024
      { TRACE_SCOPE_RAII("s"); n++; }
#line 2025
      { TRACE_SCOPE_RAII("s"); n++; }
#line 3047
      { TRACE_SCOPE_RAII("s"); n++; }
#line 3048
      { TRACE_SCOPE_RAII("s"); n++; }
#line 3049
      { TRACE_SCOPE_RAII("s"); n++; }
#line 5000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 5095
      { TRACE_SCOPE_RAII("s"); n++; }
#line 5096
      { TRACE_SCOPE_RAII("s"); n++; }
#line 5097
      { TRACE_SCOPE_RAII("s"); n++; }
#line 8000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 9191
      { TRACE_SCOPE_RAII("s"); n++; }
#line 9192
      { TRACE_SCOPE_RAII("s"); n++; }
#line 9193
      { TRACE_SCOPE_RAII("s"); n++; }
#line 10000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 11000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 14000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 17000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 17383
      { TRACE_SCOPE_RAII("s"); n++; }
#line 17384
      { TRACE_SCOPE_RAII("s"); n++; }
#line 17385
      { TRACE_SCOPE_RAII("s"); n++; }
#line 20000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 23000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 26000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 29000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 32000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 33767
      { TRACE_SCOPE_RAII("s"); n++; }
#line 33768
      { TRACE_SCOPE_RAII("s"); n++; }
#line 33769
      { TRACE_SCOPE_RAII("s"); n++; }
#line 35000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 38000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 41000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 44000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 47000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 50000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 53000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 56000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 59000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 62000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 65000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 66535
      { TRACE_SCOPE_RAII("s"); n++; }
#line 66536
      { TRACE_SCOPE_RAII("s"); n++; }
#line 66537
      { TRACE_SCOPE_RAII("s"); n++; }
#line 68000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 100000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 132071
      { TRACE_SCOPE_RAII("s"); n++; }
#line 132072
      { TRACE_SCOPE_RAII("s"); n++; }
#line 132073
      { TRACE_SCOPE_RAII("s"); n++; }
#line 263143
      { TRACE_SCOPE_RAII("s"); n++; }
#line 263144
      { TRACE_SCOPE_RAII("s"); n++; }
#line 263145
      { TRACE_SCOPE_RAII("s"); n++; }
#line 525287
      { TRACE_SCOPE_RAII("s"); n++; }
#line 525288
      { TRACE_SCOPE_RAII("s"); n++; }
#line 525289
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1000000
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1049575
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1049576
      { TRACE_SCOPE_RAII("s"); n++; }
#line 1049577
      { TRACE_SCOPE_RAII("s"); n++; }
#line 2098151
      { TRACE_SCOPE_RAII("s"); n++; }
#line 2098152
      { TRACE_SCOPE_RAII("s"); n++; }
#line 2098153
      { TRACE_SCOPE_RAII("s"); n++; }
      break;
    case 1:
      { TRACE_MARK_EVENT_GLOBAL("\001"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\002"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\003"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\004"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\005"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\006"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\007"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\010"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\011"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\012"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\013"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\014"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\015"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\016"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\017"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\020"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\021"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\022"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\023"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\024"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\025"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\026"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\027"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\030"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\031"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\032"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\033"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\034"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\035"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\036"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\037"); n++; }
      { TRACE_MARK_EVENT_GLOBAL(" "); n++; }
      { TRACE_MARK_EVENT_GLOBAL("!"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\042"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("#"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("$"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("%"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("&"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("'"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("("); n++; }
      { TRACE_MARK_EVENT_GLOBAL(")"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("*"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("+"); n++; }
      { TRACE_MARK_EVENT_GLOBAL(","); n++; }
      { TRACE_MARK_EVENT_GLOBAL("-"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("."); n++; }
      { TRACE_MARK_EVENT_GLOBAL("/"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("1"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("2"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("3"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("4"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("5"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("6"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("7"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("8"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("9"); n++; }
      { TRACE_MARK_EVENT_GLOBAL(":"); n++; }
      { TRACE_MARK_EVENT_GLOBAL(";"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("<"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("="); n++; }
      { TRACE_MARK_EVENT_GLOBAL(">"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\077"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("@"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("A"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("B"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("C"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("D"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("E"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("F"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("G"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("H"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("I"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("J"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("K"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("L"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("M"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("N"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("O"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("P"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("Q"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("R"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("S"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("T"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("U"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("V"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("W"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("X"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("Y"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("Z"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("["); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\134"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("]"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("^"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("_"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("`"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("a"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("b"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("c"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("d"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("e"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("f"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("g"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("h"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("i"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("j"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("k"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("l"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("m"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("n"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("o"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("p"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("q"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("r"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("s"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("t"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("u"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("v"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("w"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("x"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("y"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("z"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("{"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("|"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("}"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("~"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\177"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\200"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\201"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\202"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\203"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\204"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\205"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\206"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\207"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\210"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\211"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\212"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\213"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\214"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\215"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\216"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\217"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\220"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\221"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\222"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\223"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\224"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\225"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\226"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\227"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\230"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\231"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\232"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\233"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\234"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\235"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\236"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\237"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\240"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\241"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\242"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\243"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\244"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\245"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\246"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\247"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\250"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\251"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\252"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\253"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\254"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\255"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\256"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\257"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\260"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\261"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\262"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\263"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\264"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\265"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\266"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\267"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\270"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\271"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\272"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\273"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\274"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\275"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\276"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\277"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\300"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\301"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\302"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\303"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\304"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\305"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\306"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\307"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\310"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\311"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\312"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\313"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\314"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\315"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\316"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\317"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\320"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\321"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\322"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\323"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\324"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\325"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\326"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\327"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\330"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\331"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\332"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\333"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\334"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\335"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\336"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\337"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\340"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\341"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\342"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\343"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\344"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\345"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\346"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\347"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\350"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\351"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\352"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\353"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\354"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\355"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\356"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\357"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\360"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\361"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\362"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\363"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\364"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\365"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\366"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\367"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\370"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\371"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\372"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\373"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\374"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\375"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\376"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("\377"); n++; }
      break;
    case 2:
      { TRACE_COUNT("\001", 1); n++; }
      { TRACE_COUNT("\002", 1); n++; }
      { TRACE_COUNT("\003", 1); n++; }
      { TRACE_COUNT("\004", 1); n++; }
      { TRACE_COUNT("\005", 1); n++; }
      { TRACE_COUNT("\006", 1); n++; }
      { TRACE_COUNT("\007", 1); n++; }
      { TRACE_COUNT("\010", 1); n++; }
      { TRACE_COUNT("\011", 1); n++; }
      { TRACE_COUNT("\012", 1); n++; }
      { TRACE_COUNT("\013", 1); n++; }
      { TRACE_COUNT("\014", 1); n++; }
      { TRACE_COUNT("\015", 1); n++; }
      { TRACE_COUNT("\016", 1); n++; }
      { TRACE_COUNT("\017", 1); n++; }
      { TRACE_COUNT("\020", 1); n++; }
      { TRACE_COUNT("\021", 1); n++; }
      { TRACE_COUNT("\022", 1); n++; }
      { TRACE_COUNT("\023", 1); n++; }
      { TRACE_COUNT("\024", 1); n++; }
      { TRACE_COUNT("\025", 1); n++; }
      { TRACE_COUNT("\026", 1); n++; }
      { TRACE_COUNT("\027", 1); n++; }
      { TRACE_COUNT("\030", 1); n++; }
      { TRACE_COUNT("\031", 1); n++; }
      { TRACE_COUNT("\032", 1); n++; }
      { TRACE_COUNT("\033", 1); n++; }
      { TRACE_COUNT("\034", 1); n++; }
      { TRACE_COUNT("\035", 1); n++; }
      { TRACE_COUNT("\036", 1); n++; }
      { TRACE_COUNT("\037", 1); n++; }
      { TRACE_COUNT(" ", 1); n++; }
      { TRACE_COUNT("!", 1); n++; }
      { TRACE_COUNT("\042", 1); n++; }
      { TRACE_COUNT("#", 1); n++; }
      { TRACE_COUNT("$", 1); n++; }
      { TRACE_COUNT("%", 1); n++; }
      { TRACE_COUNT("&", 1); n++; }
      { TRACE_COUNT("'", 1); n++; }
      { TRACE_COUNT("(", 1); n++; }
      { TRACE_COUNT(")", 1); n++; }
      { TRACE_COUNT("*", 1); n++; }
      { TRACE_COUNT("+", 1); n++; }
      { TRACE_COUNT(",", 1); n++; }
      { TRACE_COUNT("-", 1); n++; }
      { TRACE_COUNT(".", 1); n++; }
      { TRACE_COUNT("/", 1); n++; }
      { TRACE_COUNT("1", 1); n++; }
      { TRACE_COUNT("2", 1); n++; }
      { TRACE_COUNT("3", 1); n++; }
      { TRACE_COUNT("4", 1); n++; }
      { TRACE_COUNT("5", 1); n++; }
      { TRACE_COUNT("6", 1); n++; }
      { TRACE_COUNT("7", 1); n++; }
      { TRACE_COUNT("8", 1); n++; }
      { TRACE_COUNT("9", 1); n++; }
      { TRACE_COUNT(":", 1); n++; }
      { TRACE_COUNT(";", 1); n++; }
      { TRACE_COUNT("<", 1); n++; }
      { TRACE_COUNT("=", 1); n++; }
      { TRACE_COUNT(">", 1); n++; }
      { TRACE_COUNT("\077", 1); n++; }
      { TRACE_COUNT("@", 1); n++; }
      { TRACE_COUNT("A", 1); n++; }
      { TRACE_COUNT("B", 1); n++; }
      { TRACE_COUNT("C", 1); n++; }
      { TRACE_COUNT("D", 1); n++; }
      { TRACE_COUNT("E", 1); n++; }
      { TRACE_COUNT("F", 1); n++; }
      { TRACE_COUNT("G", 1); n++; }
      { TRACE_COUNT("H", 1); n++; }
      { TRACE_COUNT("I", 1); n++; }
      { TRACE_COUNT("J", 1); n++; }
      { TRACE_COUNT("K", 1); n++; }
      { TRACE_COUNT("L", 1); n++; }
      { TRACE_COUNT("M", 1); n++; }
      { TRACE_COUNT("N", 1); n++; }
      { TRACE_COUNT("O", 1); n++; }
      { TRACE_COUNT("P", 1); n++; }
      { TRACE_COUNT("Q", 1); n++; }
      { TRACE_COUNT("R", 1); n++; }
      { TRACE_COUNT("S", 1); n++; }
      { TRACE_COUNT("T", 1); n++; }
      { TRACE_COUNT("U", 1); n++; }
      { TRACE_COUNT("V", 1); n++; }
      { TRACE_COUNT("W", 1); n++; }
      { TRACE_COUNT("X", 1); n++; }
      { TRACE_COUNT("Y", 1); n++; }
      { TRACE_COUNT("Z", 1); n++; }
      { TRACE_COUNT("[", 1); n++; }
      { TRACE_COUNT("\134", 1); n++; }
      { TRACE_COUNT("]", 1); n++; }
      { TRACE_COUNT("^", 1); n++; }
      { TRACE_COUNT("_", 1); n++; }
      { TRACE_COUNT("`", 1); n++; }
      { TRACE_COUNT("a", 1); n++; }
      { TRACE_COUNT("b", 1); n++; }
      { TRACE_COUNT("c", 1); n++; }
      { TRACE_COUNT("d", 1); n++; }
      { TRACE_COUNT("e", 1); n++; }
      { TRACE_COUNT("f", 1); n++; }
      { TRACE_COUNT("g", 1); n++; }
      { TRACE_COUNT("h", 1); n++; }
      { TRACE_COUNT("i", 1); n++; }
      { TRACE_COUNT("j", 1); n++; }
      { TRACE_COUNT("k", 1); n++; }
      { TRACE_COUNT("l", 1); n++; }
      { TRACE_COUNT("m", 1); n++; }
      { TRACE_COUNT("n", 1); n++; }
      { TRACE_COUNT("o", 1); n++; }
      { TRACE_COUNT("p", 1); n++; }
      { TRACE_COUNT("q", 1); n++; }
      { TRACE_COUNT("r", 1); n++; }
      { TRACE_COUNT("s", 1); n++; }
      { TRACE_COUNT("t", 1); n++; }
      { TRACE_COUNT("u", 1); n++; }
      { TRACE_COUNT("v", 1); n++; }
      { TRACE_COUNT("w", 1); n++; }
      { TRACE_COUNT("x", 1); n++; }
      { TRACE_COUNT("y", 1); n++; }
      { TRACE_COUNT("z", 1); n++; }
      { TRACE_COUNT("{", 1); n++; }
      { TRACE_COUNT("|", 1); n++; }
      { TRACE_COUNT("}", 1); n++; }
      { TRACE_COUNT("~", 1); n++; }
      { TRACE_COUNT("\177", 1); n++; }
      { TRACE_COUNT("\200", 1); n++; }
      { TRACE_COUNT("\201", 1); n++; }
      { TRACE_COUNT("\202", 1); n++; }
      { TRACE_COUNT("\203", 1); n++; }
      { TRACE_COUNT("\204", 1); n++; }
      { TRACE_COUNT("\205", 1); n++; }
      { TRACE_COUNT("\206", 1); n++; }
      { TRACE_COUNT("\207", 1); n++; }
      { TRACE_COUNT("\210", 1); n++; }
      { TRACE_COUNT("\211", 1); n++; }
      { TRACE_COUNT("\212", 1); n++; }
      { TRACE_COUNT("\213", 1); n++; }
      { TRACE_COUNT("\214", 1); n++; }
      { TRACE_COUNT("\215", 1); n++; }
      { TRACE_COUNT("\216", 1); n++; }
      { TRACE_COUNT("\217", 1); n++; }
      { TRACE_COUNT("\220", 1); n++; }
      { TRACE_COUNT("\221", 1); n++; }
      { TRACE_COUNT("\222", 1); n++; }
      { TRACE_COUNT("\223", 1); n++; }
      { TRACE_COUNT("\224", 1); n++; }
      { TRACE_COUNT("\225", 1); n++; }
      { TRACE_COUNT("\226", 1); n++; }
      { TRACE_COUNT("\227", 1); n++; }
      { TRACE_COUNT("\230", 1); n++; }
      { TRACE_COUNT("\231", 1); n++; }
      { TRACE_COUNT("\232", 1); n++; }
      { TRACE_COUNT("\233", 1); n++; }
      { TRACE_COUNT("\234", 1); n++; }
      { TRACE_COUNT("\235", 1); n++; }
      { TRACE_COUNT("\236", 1); n++; }
      { TRACE_COUNT("\237", 1); n++; }
      { TRACE_COUNT("\240", 1); n++; }
      { TRACE_COUNT("\241", 1); n++; }
      { TRACE_COUNT("\242", 1); n++; }
      { TRACE_COUNT("\243", 1); n++; }
      { TRACE_COUNT("\244", 1); n++; }
      { TRACE_COUNT("\245", 1); n++; }
      { TRACE_COUNT("\246", 1); n++; }
      { TRACE_COUNT("\247", 1); n++; }
      { TRACE_COUNT("\250", 1); n++; }
      { TRACE_COUNT("\251", 1); n++; }
      { TRACE_COUNT("\252", 1); n++; }
      { TRACE_COUNT("\253", 1); n++; }
      { TRACE_COUNT("\254", 1); n++; }
      { TRACE_COUNT("\255", 1); n++; }
      { TRACE_COUNT("\256", 1); n++; }
      { TRACE_COUNT("\257", 1); n++; }
      { TRACE_COUNT("\260", 1); n++; }
      { TRACE_COUNT("\261", 1); n++; }
      { TRACE_COUNT("\262", 1); n++; }
      { TRACE_COUNT("\263", 1); n++; }
      { TRACE_COUNT("\264", 1); n++; }
      { TRACE_COUNT("\265", 1); n++; }
      { TRACE_COUNT("\266", 1); n++; }
      { TRACE_COUNT("\267", 1); n++; }
      { TRACE_COUNT("\270", 1); n++; }
      { TRACE_COUNT("\271", 1); n++; }
      { TRACE_COUNT("\272", 1); n++; }
      { TRACE_COUNT("\273", 1); n++; }
      { TRACE_COUNT("\274", 1); n++; }
      { TRACE_COUNT("\275", 1); n++; }
      { TRACE_COUNT("\276", 1); n++; }
      { TRACE_COUNT("\277", 1); n++; }
      { TRACE_COUNT("\300", 1); n++; }
      { TRACE_COUNT("\301", 1); n++; }
      { TRACE_COUNT("\302", 1); n++; }
      { TRACE_COUNT("\303", 1); n++; }
      { TRACE_COUNT("\304", 1); n++; }
      { TRACE_COUNT("\305", 1); n++; }
      { TRACE_COUNT("\306", 1); n++; }
      { TRACE_COUNT("\307", 1); n++; }
      { TRACE_COUNT("\310", 1); n++; }
      { TRACE_COUNT("\311", 1); n++; }
      { TRACE_COUNT("\312", 1); n++; }
      { TRACE_COUNT("\313", 1); n++; }
      { TRACE_COUNT("\314", 1); n++; }
      { TRACE_COUNT("\315", 1); n++; }
      { TRACE_COUNT("\316", 1); n++; }
      { TRACE_COUNT("\317", 1); n++; }
      { TRACE_COUNT("\320", 1); n++; }
      { TRACE_COUNT("\321", 1); n++; }
      { TRACE_COUNT("\322", 1); n++; }
      { TRACE_COUNT("\323", 1); n++; }
      { TRACE_COUNT("\324", 1); n++; }
      { TRACE_COUNT("\325", 1); n++; }
      { TRACE_COUNT("\326", 1); n++; }
      { TRACE_COUNT("\327", 1); n++; }
      { TRACE_COUNT("\330", 1); n++; }
      { TRACE_COUNT("\331", 1); n++; }
      { TRACE_COUNT("\332", 1); n++; }
      { TRACE_COUNT("\333", 1); n++; }
      { TRACE_COUNT("\334", 1); n++; }
      { TRACE_COUNT("\335", 1); n++; }
      { TRACE_COUNT("\336", 1); n++; }
      { TRACE_COUNT("\337", 1); n++; }
      { TRACE_COUNT("\340", 1); n++; }
      { TRACE_COUNT("\341", 1); n++; }
      { TRACE_COUNT("\342", 1); n++; }
      { TRACE_COUNT("\343", 1); n++; }
      { TRACE_COUNT("\344", 1); n++; }
      { TRACE_COUNT("\345", 1); n++; }
      { TRACE_COUNT("\346", 1); n++; }
      { TRACE_COUNT("\347", 1); n++; }
      { TRACE_COUNT("\350", 1); n++; }
      { TRACE_COUNT("\351", 1); n++; }
      { TRACE_COUNT("\352", 1); n++; }
      { TRACE_COUNT("\353", 1); n++; }
      { TRACE_COUNT("\354", 1); n++; }
      { TRACE_COUNT("\355", 1); n++; }
      { TRACE_COUNT("\356", 1); n++; }
      { TRACE_COUNT("\357", 1); n++; }
      { TRACE_COUNT("\360", 1); n++; }
      { TRACE_COUNT("\361", 1); n++; }
      { TRACE_COUNT("\362", 1); n++; }
      { TRACE_COUNT("\363", 1); n++; }
      { TRACE_COUNT("\364", 1); n++; }
      { TRACE_COUNT("\365", 1); n++; }
      { TRACE_COUNT("\366", 1); n++; }
      { TRACE_COUNT("\367", 1); n++; }
      { TRACE_COUNT("\370", 1); n++; }
      { TRACE_COUNT("\371", 1); n++; }
      { TRACE_COUNT("\372", 1); n++; }
      { TRACE_COUNT("\373", 1); n++; }
      { TRACE_COUNT("\374", 1); n++; }
      { TRACE_COUNT("\375", 1); n++; }
      { TRACE_COUNT("\376", 1); n++; }
      { TRACE_COUNT("\377", 1); n++; }
      break;
    case 3:
      { TRACE_MARK_EVENT_GLOBAL("xx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xyx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxyx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxyxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxyxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxyxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxyxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxyxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxyxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxyxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); n++; }
      { TRACE_MARK_EVENT_GLOBAL(""); n++; }
      { TRACE_MARK_EVENT_GLOBAL("ab"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("ba"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("abc"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("cab"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("bca"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("acb"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("a/b"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("b/a"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("a/"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("/a"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("counter"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("Counter"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("counter "); n++; }
      { TRACE_MARK_EVENT_GLOBAL(" counter"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("counter1"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("counter2"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("counter10"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("0"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("00"); n++; }
      { TRACE_MARK_EVENT_GLOBAL("000"); n++; }
      break;
    case 4:
      { TRACE_COUNT("xx", 1); n++; }
      { TRACE_COUNT("xy", 1); n++; }
      { TRACE_COUNT("yx", 1); n++; }
      { TRACE_COUNT("xxx", 1); n++; }
      { TRACE_COUNT("xxy", 1); n++; }
      { TRACE_COUNT("yxx", 1); n++; }
      { TRACE_COUNT("xyx", 1); n++; }
      { TRACE_COUNT("xxxx", 1); n++; }
      { TRACE_COUNT("xxxy", 1); n++; }
      { TRACE_COUNT("yxxx", 1); n++; }
      { TRACE_COUNT("xxyx", 1); n++; }
      { TRACE_COUNT("xxxxx", 1); n++; }
      { TRACE_COUNT("xxxxy", 1); n++; }
      { TRACE_COUNT("yxxxx", 1); n++; }
      { TRACE_COUNT("xxyxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxyxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxyxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxyxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxyxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxyxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxyxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy", 1); n++; }
      { TRACE_COUNT("yxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 1); n++; }
      { TRACE_COUNT("", 1); n++; }
      { TRACE_COUNT("ab", 1); n++; }
      { TRACE_COUNT("ba", 1); n++; }
      { TRACE_COUNT("abc", 1); n++; }
      { TRACE_COUNT("cab", 1); n++; }
      { TRACE_COUNT("bca", 1); n++; }
      { TRACE_COUNT("acb", 1); n++; }
      { TRACE_COUNT("a/b", 1); n++; }
      { TRACE_COUNT("b/a", 1); n++; }
      { TRACE_COUNT("a/", 1); n++; }
      { TRACE_COUNT("/a", 1); n++; }
      { TRACE_COUNT("counter", 1); n++; }
      { TRACE_COUNT("Counter", 1); n++; }
      { TRACE_COUNT("counter ", 1); n++; }
      { TRACE_COUNT(" counter", 1); n++; }
      { TRACE_COUNT("counter1", 1); n++; }
      { TRACE_COUNT("counter2", 1); n++; }
      { TRACE_COUNT("counter10", 1); n++; }
      { TRACE_COUNT("0", 1); n++; }
      { TRACE_COUNT("00", 1); n++; }
      { TRACE_COUNT("000", 1); n++; }
      break;
  }
  return n;
}
