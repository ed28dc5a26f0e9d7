// Thin, instrumented boundary to the code under test.  Everything called here counts as CUT.
#pragma once
#include <string>
#include <vector>
namespace cut {
typedef void Model;
struct Mat { int rows = 0, cols = 0; std::vector<double> d; double operator()(int i, int j) const { return d[i * cols + j]; } };
Model *make(const std::string &xml);
Model *copy(const Model *);
void assign(Model *to, const Model *from);
Model *copy_move(Model *from); // copies, then moves the copy into a new object
void destroy(Model *);
void set_joint_angles(Model *, const std::vector<size_t> &, const std::vector<double> &);
void set_joint_angles_(Model *, const std::vector<size_t> &, const std::vector<double> &);
void set_joint_angle(Model *, size_t, double);
void set_init_angles(Model *);
void set_base_quat(Model *, const double p[3], const double q[4], bool underscore);
void set_base_rpy(Model *, const double p[3], const double r[3], bool underscore);
void clear_cache(Model *);
void add_link_rpy(Model *, const std::string &, size_t parent, const double p[3], const double r[3], std::string *ret_name, long *ret_id);
void add_link_quat(Model *, const std::string &, size_t parent, const double p[3], const double q[4], std::string *ret_name, long *ret_id);
void pose(Model *, size_t link, double out[7]); // xyz, quaternion xyzw
Mat jacobian(Model *, size_t link, const std::vector<size_t> &joints, int rot, bool base); // rot 0 none 1 rpy 2 xyzw
void com(Model *, double out[3]);
Mat com_jacobian(Model *, const std::vector<size_t> &joints, bool base);
Mat inertia(Model *);
double total_mass(Model *);
std::vector<std::string> link_names(Model *), joint_names(Model *);
std::vector<size_t> link_ids(Model *, const std::vector<std::string> &), joint_ids(Model *, const std::vector<std::string> &);
std::vector<double> angles(Model *, const std::vector<size_t> &);
std::vector<std::pair<double, double>> pos_limits(Model *, const std::vector<size_t> &);
std::vector<double> vel_limits(Model *, const std::vector<size_t> &), eff_limits(Model *, const std::vector<size_t> &);
std::string load_urdf(const std::string &path);
// parsed descriptions
struct PJoint { std::string name, parent, child; int type; double axis[3], xyz[3], q[4]; bool has_limit; double lower, upper, effort, velocity; bool has_mimic; std::string mimic_joint; double mult, off; bool has_safety; double slo, sup, kp, kv; bool has_cal, has_rising, has_falling; double rising, falling; bool has_dyn; double damping, friction; };
struct PShape { std::string name, file; double xyz[3], q[4], d[3]; int kind = -1; std::string mat; bool has_mat = false; std::string mat_name, texture; double rgba[4]; };
struct PMat { std::string name, texture; double rgba[4]; };
struct PLink { std::string name, parent; bool has_inertial; double mass, com[3], q[4], I[6]; std::vector<std::string> children; std::vector<PShape> visuals, collisions; bool first_ok; };
struct Parsed { bool ok = false; std::string name, root; std::vector<PLink> links; std::vector<PJoint> joints; std::vector<PMat> mats; };
std::vector<PLink> model_links(Model *); // the descriptions of the links a model keeps, geometry only
Parsed parse(const std::string &xml);
Parsed parse_file(const std::string &path);
std::string parse_export(const std::string &xml, bool *ok); // parse, export, print
bool parse_export_to_file(const std::string &xml, const std::string &path);
// parse once, export at the given moment
void *parse_handle(const std::string &xml); std::string export_handle(void *); Parsed view_handle(void *); void free_handle(void *);
// documents
struct Node { int type = 0; std::string value; std::vector<std::pair<std::string, std::string>> attrs; std::vector<Node> kids; bool cdata = false; }; // 0 element 1 text 2 comment 3 unknown 4 declaration 5 document
bool doc_save(const Node &document, const std::string &path);
bool doc_load(const std::string &path, Node &out);       // fresh document
bool doc_parse(const std::string &text, Node &out);      // in memory
bool doc_load_save(const std::string &path, const std::string &out, bool no_name); // load, then save
std::string doc_print(const Node &root);
} // namespace cut
