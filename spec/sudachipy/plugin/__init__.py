# Copyright (c) 2019 Works Applications Co., Ltd.
#
# Licensed under the Apache License, Version 2.0 (the "License");
# you may not use this file except in compliance with the License.
# You may obtain a copy of the License at
#
#     http://www.apache.org/licenses/LICENSE-2.0
#
# Unless required by applicable law or agreed to in writing, software
# distributed under the License is distributed on an "AS IS" BASIS,
# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
# See the License for the specific language governing permissions and
# limitations under the License.

#from sudachipy.plugin.oov import simple_oov_plugin
#from sudachipy.plugin.oov import mecab_oov_plugin
#from sudachipy.plugin.path_rewrite import join_numeric_plugin
#from sudachipy.plugin.path_rewrite import join_katakana_oov_plugin
#from sudachipy.plugin.input_text import default_input_text_plugin
#from .connect_cost.inhibitconnectioncost import InhibitConnectionPlugin
#from . import oov
#from . import input_text
#from . import path_rewrite
